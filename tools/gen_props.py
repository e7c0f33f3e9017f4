#!/usr/bin/env python3
"""Source of properties.jsonl: run `python3 tools/gen_props.py > properties.jsonl`."""
import json

BI = "body-image/src/lib.rs"
BM = "body-image/src/_mem_handle_ext.rs"
BA = "barc/src/lib.rs"
BC = "barc/src/compress.rs"
FS = "body-image-futio/src/sink.rs"
FT = "body-image-futio/src/stream.rs"
FB = "body-image-futio/src/blocking.rs"
FM = "body-image-futio/src/mem_map_buf.rs"
FU = "body-image-futio/src/uni_body_buf.rs"
FD = "body-image-futio/src/decode.rs"
FN = "body-image-futio/src/tune.rs"
FW = "body-image-futio/src/wrappers.rs"
FL = "body-image-futio/src/lib.rs"
FF = "body-image-futio/src/fetch.rs"
CL = "barc-cli/src/main.rs"
PL = "piccolog/src/lib.rs"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": list(files),
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why, "anchors": a})


# ---- bodies -------------------------------------------------------------
prop("C01", "A body's reported length always equals the bytes it stores",
     "The length reported by a body under construction equals the number of bytes stored in it after every "
     "append, spill to disk and finish, whichever storage it is using. A failed append or a zero-length append "
     "leaves the reported length and the stored content as they were accounted before, and a finished image "
     "reports exactly the length of the body it was made from.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of appends (any sizes, including zero), spills and finish on either storage, and every I/O failure inside them",
     "The tests append a handful of fixed buffers and never make a write fail; length and storage are updated by separate statements on each branch.",
     [BI],
     [("length is increased by the buffer's own length only after the bytes are stored", BI + " BodySink::push, write_all"),
      ("length zeroed before and restored after a spill", BI + " BodySink::write_back"),
      ("image takes over the sink's length", BI + " BodySink::prepare")],
     [("len", "reported byte length", BI + " BodySink, BodyImage"),
      ("state", "storage: scattered buffers or file", BI + " SinkState, ImageState")],
     ["BodySink::len", "BodyImage::len"])

prop("C02", "Appended bytes come back complete, once each and in append order",
     "Every buffer appended to a body is stored whole, exactly once, after all earlier ones. Spilling to disk, "
     "gathering into one buffer, copying out and streaming out each visit all stored buffers in that order and "
     "never skip, repeat or reorder one.",
     ["histories", "inputs"],
     "every append history and every later conversion or read of the body",
     "The tests compare a few short bodies of one or two buffers; loops over many buffers with early exits or skips are not reached.",
     [BI, FT],
     [("append at the end of the buffer vector or the file", BI + " BodySink::push, write_all"),
      ("forward loop over all buffers", BI + " BodySink::write_back, BodyImage::gather, BodyImage::write_to"),
      ("front-to-back iteration of scattered buffers", FT + " AsyncBodyImage poll_impl")],
     [], ["BodyImage::reader", "BodyImage::write_to", "BodyImage::explode"])

prop("C03", "No ingestion path yields a body longer than the configured maximum",
     "Whether a body is read from a blocking reader, collected by any of the asynchronous sinks, or decompressed "
     "from an encoded response, its total length never exceeds the configured maximum body length. Exceeding it is "
     "reported as a too-long error before the excess bytes are stored, counting every byte received so far.",
     ["inputs", "configurations", "histories"],
     "every input length and chunking, every tunables setting, every length estimate",
     "The tests use bodies far below the limit or one length just above it, on one chunking; the switch from memory to disk in mid-body resets local counters the tests do not observe.",
     [BI, FS, FD],
     [("running total compared with the maximum before each store", BI + " BodyImage::read_from, read_to_body_fs"),
      ("prospective length compared with the maximum", FS + " AsyncBodySink::poll_send"),
      ("decompression goes through the limited reader", FD + " decompress")],
     [], ["BodyImage::read_from", "Sink::poll_flush", "decode_res_body"])

prop("C04", "Bodies over the RAM limit are moved to disk before more is held in RAM",
     "While a body is read from a blocking reader or collected by an asynchronous sink, bytes are kept in memory "
     "only while the total is within the configured RAM maximum. The buffer that would exceed it, and everything "
     "before it, go to a temporary file, as does a body whose estimate already exceeds it.",
     ["inputs", "configurations", "histories"],
     "every input length, chunking, estimate and tunables setting",
     "Tests check the final storage kind for a few sizes; they cannot cover each boundary of estimate, accumulated length and buffer size.",
     [BI, FS],
     [("total compared with the RAM maximum before a memory append", BI + " BodyImage::read_from"),
      ("spill before the first file write", FS + " AsyncBodySink::poll_send")],
     [], ["BodyImage::is_ram", "BodySink::is_ram"])

prop("C05", "A failed spill to disk leaves an empty in-memory body",
     "If converting an in-memory body to a temporary file fails at any step, the body is afterwards empty, reports "
     "length zero and is in memory; a body already on disk is never disturbed by a spill request. On success it holds "
     "all the previous bytes, in file storage, with the previous length.",
     ["fault_sequences"],
     "an I/O failure at the file creation or at any one of the buffer writes",
     "No test makes file creation or a write fail part-way through a spill.",
     [BI],
     [("contents and length cut before the first fallible step", BI + " BodySink::write_back")],
     [], ["BodySink::write_back", "BodySink::len", "BodySink::is_ram"])

prop("C06", "All ways to view a body image cover exactly its bytes",
     "Reading, copying out, decomposing and memory mapping an image all cover exactly the image's length, starting at "
     "its first byte, even if the underlying file holds more bytes before or after it. An image of zero length is "
     "always memory based, so it is never file or map backed, and copying out reports the number of bytes "
     "really delivered.",
     ["inputs", "configurations", "fault_sequences"],
     "every image storage kind and every relation between image length and underlying file length",
     "Tests build file images whose length is exactly the file length, so an unbounded view passes.",
     [BI],
     [("views bounded by the image length", BI + " BodyImage::reader, explode, write_to, mem_map"),
      ("zero length turned into the empty memory image", BI + " BodySink::prepare, image_from_file, image_from_read_slice")],
     [], ["BodyImage::reader", "BodyImage::write_to", "BodyImage::explode", "BodyImage::mem_map"])

prop("C07", "Concurrent readers of one body or archive never disturb each other",
     "Reading an image, its clones, or an archive uses only positioned reads on shared files, so no reader moves "
     "another's position. Nothing reachable from an image or an archive reader writes to, truncates or repositions a shared file.",
     ["schedules"],
     "every interleaving of readers over clones and slices of one file",
     "Interleavings of shared-cursor reads are timing dependent; the one concurrent test reads small bodies.",
     [BI, BA, FT],
     [("instance-local positions over a shared handle", BI + " BodyImage::reader, explode, write_to"),
      ("independent read-only handle per archive reader", BA + " BarcFile::reader")],
     [], ["BodyImage::reader", "BarcReader::read"])

prop("C08", "No I/O or format failure is swallowed",
     "Whenever a storage, stream, compression or parsing step inside an operation fails, other than by interruption, that operation "
     "reports an error to its caller. It never reports success, end of data or an absent item instead. (Not understanding what a content-type or encoding header of a message means is not such a failure.)",
     ["fault_sequences"],
     "a failure of any one fallible step on any path of any library operation",
     "Faults are not injected by any test, so error branches are essentially unexecuted.",
     [BI, BM, BA, BC, FS, FT, FD, CL],
     [("question-mark propagation on every fallible step", BI + ", " + BA + ", " + BC + ", " + FS + ", " + FT + ", " + FD)],
     [], ["Result returned by every public fallible operation"])

prop("C09", "An interrupted read is retried without loss",
     "When a read fails only because it was interrupted, the operation retries it: the interruption is neither returned "
     "as an error nor treated as end of input, and bytes already read are kept.",
     ["fault_sequences", "inputs"],
     "interruption of any read in any of the read loops",
     "Interrupted results do not occur in tests.",
     [BI, BA, FT],
     [("retry on the interrupted error kind", BI + " BodyImage::read_from, read_to_body_fs; " + BA + " read_record_head_buf, read_body_fs; " + FT + " poll_impl")],
     [], ["BodyImage::read_from", "BarcReader::read", "Stream::poll_next"])

prop("C10", "Bytes that were never read are never exposed",
     "A buffer's readable length is only ever extended over bytes that the preceding successful read put there. No image, "
     "record or stream item can contain uninitialised or stale buffer memory, for any count a reader may return.",
     ["inputs", "fault_sequences"],
     "every short read, failed read and read length",
     "Uninitialised memory usually looks like zeros under test, and short reads do not occur with in-memory readers.",
     [BI, BA, FT],
     [("buffer advanced by the count returned from the read into it", BI + " read_from, read_to_body_fs; " + BA + " read_headers, read_body_ram, read_body_fs; " + FT + " poll_impl")],
     [], ["BodyImage::reader", "Record", "Stream::poll_next"])

prop("C11", "File system side effects are limited to temp bodies and the archive",
     "Body storage only ever creates anonymous temporary files, in the directory the caller configured. Archive files are created "
     "or opened for writing only when a writer is requested, are never truncated, and readers open files read-only; nothing removes, renames or "
     "re-permissions any path.",
     ["programs", "configurations"],
     "every call path from every public operation",
     "Tests look at results, not at which files were created, where, or with which open flags.",
     [BI, BA, FS, CL],
     [("unnamed temp file in the given directory", BI + " BodySink::with_fs, write_back"),
      ("open options without truncate", BA + " BarcFile::writer, reader")],
     [], ["file system"])

prop("C12", "Tunables can only be obtained in a consistent state",
     "Every tunables value obtained from defaults or a builder has non-zero buffer sizes, estimates and stream item size, a RAM maximum no larger than the "
     "body maximum, and an initial response timeout no longer than the body timeout. Each setter changes exactly the setting it names, inconsistent requests panic "
     "instead of yielding a value, and values cannot be altered afterwards.",
     ["configurations", "programs"],
     "every builder call sequence and argument",
     "Tests try a few fixed settings.",
     [BI, FN],
     [("range assertions in setters and finish", BI + " Tuner; " + FN + " FutioTuner"),
      ("private fields with getters only", BI + " Tunables; " + FN + " FutioTunables")],
     [], ["Tuner::finish", "FutioTuner::finish", "getters"])

prop("C13", "Type-level guarantees: thread safety, unsafe gates and writer exclusivity",
     "Images, sinks, dialogs, records, archives, readers, stream and sink wrappers can be sent between threads, and all shareable ones shared; "
     "an image over an arbitrary file that may later be memory mapped can only be made in unsafe code. Safe code cannot build images, sinks or "
     "tunables from parts, and an archive writer cannot outlive its archive.",
     ["programs"],
     "every program that compiles against the public API",
     "Tests can only contain programs that compile; the absence of a capability is not testable at run time.",
     [BI, BA, FS, FT, FN, FM, FU],
     [("auto traits, private fields, unsafe constructors and lifetimes", BI + ", " + BA + ", " + FS + ", " + FT)],
     [], ["compiler acceptance of client programs"])

# ---- archive ------------------------------------------------------------
prop("C14", "An archive record becomes visible only after its payload is complete",
     "Writing a record first appends a placeholder head that readers treat as not yet available, then the complete payload including the "
     "compressor's trailer, and only then replaces the placeholder by the final head. If any step fails or the process stops, "
     "the placeholder is what remains, so no reader ever sees a visible record with an incomplete payload.",
     ["crash_points", "fault_sequences", "schedules"],
     "a crash or failure at any step of writing a record, and any concurrent reader",
     "Tests never stop a writer mid-record, and the concurrent test can only sample interleavings.",
     [BA, BC],
     [("reserve, payload, finish encoder, final head, in that order", BA + " BarcWriter::write, write_record"),
      ("encoder finish before returning", BC + " EncodeWrapper::finish")],
     [], ["BarcWriter::write", "BarcReader::read"])

prop("C15", "Archives are append-only and record offsets are exact",
     "A record is always written at the end of the archive as it is at that moment, and the only bytes ever overwritten are that record's own placeholder head. The offset "
     "returned for a record is the position of its head, usable to seek to it.",
     ["histories", "schedules"],
     "every sequence of opens, writes and failed writes on existing archives",
     "Tests write fresh files with a couple of records.",
     [BA],
     [("seek to end, remember start, seek back to start only for the head", BA + " BarcWriter::write"),
      ("open without truncation", BA + " BarcFile::writer")],
     [], ["BarcWriter::write", "BarcReader::seek"])

prop("C16", "Record heads state the true lengths, kind and compression of the payload",
     "Each length in a record's head is exactly the number of payload bytes that part occupies (before compression), in particular the total equals the bytes between the "
     "head and the end of the record as stored. The recorded compression is the one really applied to the payload, and the record type is the record's own.",
     ["inputs", "configurations"],
     "every record content, size and compression strategy",
     "Tests read back a few records; compensating errors between parts go unnoticed for empty parts.",
     [BA, BC],
     [("sizes returned from each part's writer, total from file positions", BA + " write_record, BarcWriter::write, write_headers, write_body"),
      ("mode reported by the encoder variant in use", BC + " EncodeWrapper::mode, wrap_encoder")],
     [], ["record head bytes in the archive"])

prop("C17", "The record head is written and parsed with one and the same layout",
     "Every field of a record head is parsed from exactly the byte range, in the same notation, in which it is written, and the head always has the same fixed size. Each numeric field's "
     "width can represent every value the writer lets through, and larger values are refused before anything of the final head is written.",
     ["inputs"],
     "all field values up to and beyond the format's limits",
     "Tests use records whose lengths fit in a few digits, so width or offset mistakes in leading digits do not show.",
     [BA],
     [("format string of the writer", BA + " write_record_head"),
      ("constant byte ranges of the parser", BA + " read_record_head, parse_hex"),
      ("limits", BA + " V2_* constants")],
     [], ["record head bytes in the archive"])

prop("C18", "Payload parts are read in the order and framing they were written",
     "For plain and for each compressed form, the reader consumes the same parts in the same order as the writer produces them, each with the length "
     "from its own head field, and expects end-of-part padding exactly when the writer adds it. After a record the reader stands exactly at "
     "the record's end, whichever way bodies were loaded.",
     ["inputs", "configurations"],
     "every combination of empty and non-empty parts, body sizes around the RAM limit, and compression",
     "Tests cover a few part combinations with one tunables setting each.",
     [BA],
     [("same sequence of header and body blocks", BA + " write_record, BarcReader::read, read_compressed"),
      ("padding handled under the same condition", BA + " write_headers, write_body, read_headers, read_body_ram, slice_body")],
     [], ["BarcReader::read"])

prop("C19", "Every symbol the archive writes is one it can read back",
     "The mappings used for writing and for reading record types, compressions, response encodings, HTTP versions and metadata names are inverse to each other: each value the writing side can emit is accepted "
     "by the reading side and yields the original value. Distinct values never share a symbol.",
     ["inputs"],
     "all enumeration values, including those rarely used",
     "Tests exercise the common values only.",
     [BA, BC, BI],
     [("flag and from_byte tables", BA + " RecordType; " + BC + " Compression"),
      ("encoding display and parse tables", BI + " Encoding; " + BA + " TryFrom<Record> for Dialog"),
      ("metadata names", BA + " hname_meta_*")],
     [], ["Dialog -> Record -> Dialog"])

prop("C20", "An archive reader's position moves only past whole records",
     "At end of file, or at a record that is still being written, a read yields nothing and leaves the reader at that same position, so a later read picks the record up when complete. "
     "After a successful read the position is exactly the end of that record.",
     ["schedules", "histories"],
     "every interleaving of a reader with a writer, and every sequence of reads and seeks",
     "The reserved case is tested once at offset zero.",
     [BA],
     [("seek back to the record start for a reserved head", BA + " BarcReader::read"),
      ("seek to the record end after a compressed read", BA + " BarcReader::read")],
     [], ["BarcReader::read", "BarcReader::offset"])

prop("C21", "Malformed archives cause errors, never panics",
     "For every file content, reading a record returns a record, nothing, or an error. It never panics, overflows arithmetic or indexes "
     "out of bounds, and never allocates more than the lengths the format and tunables allow.",
     ["inputs"],
     "every byte sequence as archive content",
     "Tests try three malformed heads out of an unbounded input space.",
     [BA, BC],
     [("validation before each use of a length from the file", BA + " BarcReader::read, read_headers, parse_headers, read_body_ram, slice_body, read_record_head")],
     [], ["BarcReader::read"])

prop("C22", "Truncated payloads are reported, not returned as shorter content",
     "If the payload of a record ends before the length its head states, reading or copying the affected header block or body fails. A body delivered with success always has "
     "exactly the stated length.",
     ["inputs", "crash_points"],
     "every truncation point of every record form",
     "One test truncates one plain record at one point.",
     [BA, BI],
     [("exact reads for header blocks and memory bodies", BA + " read_headers, read_body_ram"),
      ("end-of-input check for file-buffered bodies", BA + " read_body_fs"),
      ("delivered count checked when copying out", BI + " BodyImage::write_to")],
     [], ["BarcReader::read", "BodyImage::write_to"])

prop("C23", "Dialog and record conversions carry every part to its counterpart",
     "Converting a dialog to a record stores the URL, method, response version, status and decoded-encodings each under its own metadata name, and moves each header set and "
     "body to the same role. Converting back takes each from where it was stored, failing if one is missing or invalid rather than substituting a default.",
     ["inputs"],
     "every dialog and record",
     "Tests convert two samples in which several parts are empty or equal.",
     [BA],
     [("field by field conversion", BA + " TryFrom<Dialog> for Record, TryFrom<Record> for Dialog")],
     [], ["Record::try_from", "Dialog::try_from"])

prop("C24", "At most one writer per archive at a time, holding the lock throughout",
     "All writing through one archive object is done by the holder of its lock, which is held for the writer's whole life. The writable file handle is opened only under the lock, "
     "at most once, and never leaves it.",
     ["schedules"],
     "every interleaving of threads requesting and using writers",
     "Thread schedules can only be sampled.",
     [BA],
     [("mutex guard owned by the writer", BA + " BarcFile::writer, BarcWriter")],
     [], ["BarcFile::writer"])

# ---- async --------------------------------------------------------------
prop("C25", "Async bodies never block without having been granted permission",
     "Polling a body stream or sink performs a potentially blocking file or memory-map access only after its arbiter granted it on that same poll. When permission is refused "
     "no file access happens and the pending data is kept.",
     ["schedules", "inputs"],
     "every poll sequence, storage state and arbiter answer",
     "Tests run with every policy but cannot observe which thread state a file access happened in.",
     [FS, FT, FB],
     [("arbiter consulted before each file access", FS + " AsyncBodySink::poll_send, poll_flush_impl; " + FT + " AsyncBodyImage::poll_impl")],
     [], ["Arbiter::can_block"])

prop("C26", "Blocking permission is granted once per permit or dispatch",
     "A stateful arbiter answers no until granted, records that permission is wanted, and a one-time grant allows exactly one blocking operation. Grants are given only while a permit "
     "is held or on a dispatch thread, and the wrappers ask for a permit or dispatch only when one is wanted.",
     ["schedules", "histories"],
     "every sequence of grants, questions and polls",
     "Over-granting has no functional effect a test can see.",
     [FB, FS, FT],
     [("arbiter transition table", FB + " StatefulArbiter"),
      ("grant then run under the permit or in the dispatch closure", FS + ", " + FT)],
     [], ["StatefulArbiter", "PermitBodySink", "PermitBodyImage", "DispatchBodySink", "DispatchBodyImage"])

prop("C27", "An async sink neither loses nor repeats an accepted buffer",
     "A buffer accepted by an asynchronous sink is stored exactly once; while it has not been stored it stays pending, across refused permission, pending permits and dispatches. "
     "The sink reports ready, flushed or closed only when nothing is pending.",
     ["schedules", "histories", "fault_sequences"],
     "every poll sequence and permission outcome",
     "Tests drive sinks to completion with executors that always make progress.",
     [FS],
     [("pending buffer slot restored when not consumed", FS + " AsyncBodySink::poll_flush_impl, send"),
      ("wrapper states", FS + " PermitBodySink, DispatchBodySink")],
     [], ["Sink::poll_ready", "Sink::poll_flush", "Sink::poll_close", "SinkWrapper::into_inner"])

prop("C28", "A body stream delivers exactly the body's bytes and then ends",
     "The number of bytes a body stream has handed out is tracked exactly: each item delivered counts once with its own length, and the stream ends only when everything was delivered. A file body that ends early is an "
     "error, and the size hint and end-of-stream flag given to HTTP agree with what is really delivered.",
     ["inputs", "schedules", "fault_sequences"],
     "every body storage, buffer size, split size and short read",
     "Tests stream well-formed bodies with default sizes.",
     [FT],
     [("delivered-bytes counter", FT + " AsyncBodyImage poll_impl"),
      ("exact size hint and end flag", FT + " http_body::Body impls")],
     [("consumed", "bytes handed out so far", FT + " AsyncBodyImage")],
     ["Stream::poll_next", "Body::size_hint", "Body::is_end_stream"])

prop("C29", "A pending result always has a wake-up arranged",
     "Whenever polling a body stream or sink returns pending, an inner future that will wake the task was polled with that task's context on this very call and itself returned pending.",
     ["schedules"],
     "every poll path through every wrapper",
     "A lost wake-up shows only under particular executor timing, as a hang.",
     [FS, FT],
     [("recursion into poll after creating a permit or dispatch future", FS + " PermitBodySink, DispatchBodySink; " + FT + " PermitBodyImage, DispatchBodyImage")],
     [], ["Stream::poll_next", "Sink::poll_ready", "Sink::poll_flush", "Sink::poll_close"])

prop("C30", "Splitting and advancing mapped buffers partitions them exactly",
     "A memory-mapped buffer's window always lies within its mapping; advancing or splitting moves its bounds by exactly the requested count, the two parts of a split being adjacent, disjoint and together the original. "
     "Requests beyond the window panic and do not expose other bytes.",
     ["inputs", "histories"],
     "every sequence of advance and split requests",
     "Tests use one split pattern.",
     [FM, FU],
     [("bounds assertions and window arithmetic", FM + " MemMapBuf"),
      ("delegation per variant", FU + " UniBodyBuf")],
     [], ["MemMapBuf", "UniBodyBuf"])

prop("C31", "Decoding a response is all-or-nothing and applies the right decoder",
     "Removing content encodings either succeeds, replacing the response body and recording the encodings removed, or fails leaving the dialog as it was. Each supported "
     "compression is undone with its own decoder, and unsupported ones are reported as an error rather than passed off as decoded.",
     ["inputs", "fault_sequences", "configurations"],
     "every combination of encoding headers, every corrupt body, every feature configuration",
     "Tests decode one or two valid bodies per encoding.",
     [FD],
     [("body and list set together after success", FD + " decode_res_body"),
      ("decoder chosen by encoding", FD + " decompress")],
     [], ["decode_res_body", "Dialog::res_decoded"])

prop("C32", "A recorded request matches the request that is sent",
     "For every way of completing a request with recording, the recorded method, URL, headers and body are those of the request itself: "
     "the body that will be streamed and the body recorded are the same image.",
     ["inputs"],
     "every builder content and body",
     "Only few requests are recorded in tests, and most need HTTP features that are not built.",
     [FW, FL],
     [("clone after finishing the request", FW + " RequestRecorder impls")],
     [], ["RequestRecord"])

prop("C33", "HTTP responses are length-checked before buffering and time limited",
     "A response whose declared length exceeds the maximum body is refused before any of it is stored, and one over the RAM maximum is collected on disk from the start. "
     "When configured, the initial response and body timeouts each bound their own phase, and every blocking policy collects the body through the sink of that policy.",
     ["inputs", "configurations"],
     "every declared length, timeout setting and policy",
     "The HTTP client parts are not even compiled in the offline test configuration.",
     [FF],
     [("content length decision", FF + " resp_future"), ("timeouts", FF + " request_dialog")],
     [], ["request_dialog"])

# ---- command line ---------------------------------------------------------
prop("C34", "Archive tools process exactly the selected records, in order",
     "Printing or copying from a start index or offset with a count processes exactly that many records beginning with the selected one, in archive order, each as stored and in every "
     "given input file. Record offsets shown are the true ones, and parts not asked for are left out while those asked for are complete.",
     ["inputs", "configurations"],
     "every combination of start, count, filter and part options",
     "The tools have no tests.",
     [CL],
     [("record loop", CL + " cat, cp"), ("part flags", CL + " part_flags, filter_flags")],
     [], ["barc cat", "barc cp"])

prop("C35", "Tool failures are reported to the caller's shell",
     "Any error while listing or copying records ends the tool with a message and a non-zero exit status. Copying never uses one file as both input and output.",
     ["fault_sequences", "inputs"],
     "every failure in any tool operation",
     "The tools have no tests.",
     [CL],
     [("error branch in main", CL + " main"), ("same-path rejection", CL + " cp")],
     [], ["process exit status"])

if __name__ == "__main__":
    for p in P:
        print(json.dumps(p))
