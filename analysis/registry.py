"""Property id -> check."""
import p_barc
import p_body
import p_conv
import p_effect
import p_err
import p_init
import p_limit
import p_lock
import p_async
import p_cli
import p_decode
import p_read
import p_fetch
import p_request
import p_tune
import p_types

AI = "abstract interpretation of MIR (content terms, linear arithmetic, per-storage-variant class invariants)"
TS = "typestate of the archive file by abstract interpretation of MIR (content terms, linear arithmetic)"

CHECKS = {
    "C01": dict(run=p_body.c01, technique=AI, rule="class invariant: reported length == size of stored content, on every return of every public method"),
    "C02": dict(run=p_body.c02, technique=AI, rule='content algebra: after each append/spill/finish/gather/map/copy/explode/reader the stored content term equals the expected one (append order, whole buffers), and a blocking read collects exactly the bytes its source delivered up to end of input'),
    "C03": dict(run=p_limit.c03, technique=AI, rule='at every store of received bytes the facts on the path entail total-after <= maximum body length; results within the maximum; the too-long error carries the bytes received and occurs only beyond the maximum'),
    "C04": dict(run=p_limit.c04, technique=AI, rule='at every retention of a buffer in memory the facts on the path entail total-after <= RAM maximum and estimate <= RAM maximum'),
    "C05": dict(run=p_body.c05, technique=AI, rule='exit-state table of the spill operation per storage: failure => empty in memory, length 0; success => file with the previous content and length; file storage untouched'),
    "C06": dict(run=p_body.c06, technique=AI, rule='every view of an image (reader, copy out, decomposition, map) covers exactly [first byte, length) of the stored content term; file or map storage implies length >= 1'),
    "C07": dict(run=p_effect.c07, technique="effect analysis over the resolved call graph (MIR)", rule='no function reachable from an operation on an image, record, body reader, archive reader or body stream moves, writes or truncates a file handle directly (only through positioned readers); no handle is duplicated, rebuilt from its raw form or mapped writable'),
    "C08": dict(run=p_err.c08, technique="error-discipline dataflow: modular abstract interpretation of MIR, every fallible call forked", rule='per fallible call of the three libraries: on every path of the enclosing function on which it fails other than by interruption, the function ends in a value that carries an error'),
    "C09": dict(run=p_err.c09, technique="typestate of a failed read, by modular abstract interpretation of MIR", rule='per raw read: an error that may be an interruption is neither returned nor left behind; after an interruption the next event is another read, with nothing collected so far removed'),
    "C10": dict(run=p_init.c10, technique="initialised-length dataflow by abstract interpretation of MIR (linear arithmetic)", rule='per extension of a buffer: the added length is entailed to be at most the bytes the last successful read put into the spare space; spare bytes handed to a consumer are within them'),
    "C11": dict(run=p_effect.c11, technique="effect analysis over the resolved call graph (MIR), open options by abstract interpretation, def-use slices for directories", rule='every call with a file-system effect is on the list of allowed ones; open flags are read-only outside a writer request and never truncate; temporary files are anonymous and their directory operand derives only from the tunables or the caller'),
    "C12": dict(run=p_tune.c12, technique="class invariant by abstract interpretation of MIR, plus type queries", rule='every builder method preserves the non-zero settings, changes exactly the setting it names to its argument; every value handed out by a constructor or finish satisfies non-zero and ordering invariants; settings are private, not interior-mutable, and never borrowed mutably by the public API'),
    "C13": dict(run=p_types.c13, technique="compile-pass and compile-fail witnesses plus queries over signatures and field visibility", rule='Send/Sync assertions per public type compile; each program that must be rejected is rejected with the expected error at the expected line; every public function from a file to an image is unsafe; fields of the closed types are private'),
    "C14": dict(run=p_barc.c14, technique=TS, rule='typestate of the archive file during a record write: placeholder head first, complete payload (finished encoder) next, final head last; success only in the final state, nothing written afterwards'),
    "C15": dict(run=p_barc.c15, technique=TS, rule='every write position is the end of the archive or, for exactly 54 bytes, the start of this record; no truncation; the returned offset is the start'),
    "C16": dict(run=p_barc.c16, technique=AI, rule='each numeric field of the final head equals, as a linear term, the number of bytes written for its part; flags match the encoder used and the type of the record'),
    "C17": dict(run=p_read.c17, technique=AI, rule='per field: byte range, width and digit notation of the formatted head term equal the byte range and notation the parser consumes; values let through are bounded so the formatted width is fixed; each part is read with the number of its own field'),
    "C18": dict(run=p_read.c18, technique=AI, rule='content term of every part of a returned record (per plain, gzip, brotli) equals the bytes at the position, with the length and padding, at which the writer puts that part'),
    "C19": dict(run=p_conv.c19, technique="table extraction by abstract interpretation of both directions", rule='per enumeration value the symbol the writing side emits is accepted by the reading side on a path yielding the same value, symbols are pairwise distinct, and the sets of metadata names written and looked up are equal'),
    "C20": dict(run=p_read.c20, technique=AI, rule='exit-state table of a record read: nothing or error => position unchanged, record => position == start + head + stated total; nothing only at end of file or at a placeholder'),
    "C21": dict(run=p_read.c21, technique=AI, rule='every arithmetic, bounds, range and explicit panic site reachable from a record read is discharged by the facts on the path, and every allocation is bounded by the format or a tunable'),
    "C22": dict(run=p_read.c22, technique=AI, rule='on every successful read the facts on the path entail that the file extends to the end of each part, and each body has exactly the stated length'),
    "C23": dict(run=p_conv.c23, technique="provenance (information flow) analysis by abstract interpretation of MIR", rule='the value stored under each metadata name derives from exactly its own component and back, header sets and bodies are the identical values per role, and no dialog is produced on a path where a required name was absent or the text matched no symbol'),
    "C24": dict(run=p_lock.c24, technique="lock typestate by abstract interpretation of MIR, plus structural and call-graph queries", rule='the opening for writing happens only with the lock held and the guarded handle absent; every writer handed out owns the guard with the handle inside; no operation duplicates, takes out or reaches the handle around the lock'),
    "C25": dict(run=p_async.c25, technique="typestate of the arbiter by abstract interpretation of MIR over all start states", rule="every blocking file or mapping operation reached by a poll is dominated by a grant on the same poll; a refusal leaves the pending data in place"),
    "C26": dict(run=p_async.c26, technique="typestate of the arbiter and permits by abstract interpretation of MIR", rule="transition table of the stateful arbiter; blocking operations of the wrappers only inside a permit or dispatched closure; requests only after a refusal; no grant left over at any exit"),
    "C27": dict(run=p_async.c27, technique="abstract interpretation of MIR with symbolic contents over all start states", rule="ready implies nothing pending and content' = content ++ buffer; pending implies buffer and content unchanged; dispatched sinks come back as they are"),
    "C28": dict(run=p_async.c28, technique="abstract interpretation of MIR with linear arithmetic over all start states", rule="consumed' = consumed + len(item) with the item the next part of the body; none only at consumed = len; errors and pending leave the count; hints equal the length; new streams start at the body's start"),
    "C29": dict(run=p_async.c29, technique="typestate of wake-ups by abstract interpretation of MIR over all start states", rule="every pending exit has an inner future polled pending with the task's context on this call; with blocking always allowed nothing is pending"),
    "C31": dict(run=p_decode.c31, technique="abstract interpretation of MIR over all encodings and short lists of header values", rule="each compression is paired with its own decoder over the response body; other encodings return an error; success stores the decoded body and the encodings found; errors leave the dialog untouched; each header value yields its encoding, the one applied last to be undone"),
    "C34": dict(run=p_cli.c34, technique="abstract interpretation of MIR with symbolic record numbers, offsets and flags", rule="every record put out is the one read last, at or after the first selected and within the count; every record not put out is before the first or after the count; files end at their end or the count; parts put out equal those asked for; the offset shown is where the record was read"),
    "C35": dict(run=p_cli.c35, technique="error-flow typestate by abstract interpretation of MIR", rule="no path from an error of the archive, the parser of numbers or the output to an end with success; error exits have a non-zero status and follow a message; the output file is opened only where the paths compared different, given and canonical"),
    "C32": dict(run=p_request.c32, technique="provenance analysis by abstract interpretation of MIR", rule="in every way of completing a request the recorded method, URL and headers come from the finished request, and the image recorded is the image given to the stream of the request; accessors show the part of their name"),
    "C33": dict(run=p_fetch.c33, technique="abstract interpretation of MIR (async blocks included, futures as terms resolved where awaited) of the program as built by default, with a stand-in for the TLS connector", rule="the response is awaited under exactly the response limit configured and the body collected under exactly the body limit; reaching a limit yields its own error; the body of the response is collected through the sink of the policy with the tunables given, only where the length declared is entailed within the maximum, in memory only where it is within the RAM maximum"),
    "C30": dict(run=p_async.c30, technique="abstract interpretation of MIR with symbolic windows", rule="views show exactly the window; advance and split move it by the count asked for, the parts being adjacent and together the original; exits beyond the window are unreachable"),
}

NOT_APPLICABLE = {}
