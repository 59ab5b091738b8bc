def define(prop, g):
    REAL, FS, STREAM, HEAP, SCHED = g["REAL_CODEC"], g["STUB_FS"], g["STUB_STREAM"], g["STUB_HEAP"], g["STUB_SCHED"]
    NOTE = "Seeded exploration, not exhaustive: every run is one repeatable execution decided by recorded choices; violations are replayed twice from a fresh process and minimised before being reported. "

    prop("P01", "BUFR messages are extracted from any byte stream exactly, or an error says so",
        "Reading BUFR messages from a stream returns, in order, exactly the bytes and the offset of each message in the stream, whatever surrounds it (bulletin headings, partial or repeated signatures, binary garbage) and however the bytes arrive. Running out of data between messages is a clean end of stream, every time it is asked again; a message cut short, a declared size that is impossible, or a read error is always reported as an error and never as a message or as end of stream. Unrelated state, such as a stale error code or a buffer in use before, has no effect.",
        ["inputs", "fault_sequences", "schedules"], "every byte stream, every chunking and buffering of it, every truncation point and read-error point, and any interleaving with other readers",
        "The tests read a few well-formed files from a healthy disk, from offset 0, one reader at a time; they never place a partial signature before a message, cut a message, or fail a read.",
        ["wreport/bulletin.cc", "wreport/bulletin.h"], [("signature search and length-driven read", "wreport/bulletin.cc")],
        "A run is a seeded stream (messages, headings, garbage, damaged sizes) delivered by a simulated transport with seeded chunking, buffering, truncation, EIO/EINTR and errno clobbering, read by 1-3 interleaved readers and compared call by call with a reference scanner. Non-trivial: at least one message, error or repeated end of stream was judged. Distinct: hash of the full history.",
        REAL, [STREAM, SCHED], NOTE + "Trusts the 40-line reference scanner and glibc's stdio.", 30, 600, ["message_read", "clean_eof", "error_reported"])
    prop("P02", "CREX messages are extracted from any byte stream exactly, or an error says so",
        "Reading CREX messages from a stream returns, in order, exactly the text from each start marker to the first end marker after it (two plus signs, one or more line ends, four sevens), whatever surrounds or precedes it, and however the bytes arrive. Running out of data between messages is a clean end of stream; a message without an end marker or a read error is always an error, never a message or an end of stream.",
        ["inputs", "fault_sequences", "schedules"], "every byte stream, chunking, truncation point, read-error point and interleaving with other readers",
        "The tests read well-formed files; no test has partial start or end markers, cut messages or read errors.",
        ["wreport/bulletin.cc", "wreport/bulletin.h"], [("signature search and end marker scan", "wreport/bulletin.cc")],
        "As P01 with CREX streams: seeded pieces of start and end markers, line ends, long lines. Non-trivial: at least one message, error or repeated end of stream was judged.",
        REAL, [STREAM, SCHED], NOTE + "Trusts the reference scanner and glibc's stdio.", 30, 600, ["message_read", "clean_eof", "error_reported"])
    prop("P03", "Messages written to a stream arrive whole and in order, or an error is raised",
        "Writing encoded messages to a stream puts exactly their bytes (for CREX followed by one line end) in order at the sink. If the sink refuses bytes while a write is in progress the write fails with an error, and the sink never holds anything but a prefix of what was written. Without a fault no write fails, and what was written reads back as the same messages.",
        ["inputs", "fault_sequences", "schedules"], "every sequence of messages, every buffering, every point at which the sink fails (full, I/O error, torn write), and any interleaving of writers",
        "The tests never write to a sink that fails or to several sinks at once.",
        ["wreport/bulletin.cc"], [("checked stdio writes", "wreport/bulletin.cc")],
        "A run writes 1-5 seeded messages per writer to simulated sinks that fail at a seeded byte; the sink contents are compared after every call with the model and read back. Non-trivial: all.",
        REAL, [STREAM, SCHED], NOTE + "Data still in the stdio buffer when the application never flushes is the application's responsibility.", 20, 400, ["all_written", "write_error_reported"])

    prop("P04", "A bulletin encoded as BUFR and read back is the same bulletin",
        "Encoding a bulletin to BUFR and decoding the result gives a bulletin with the same header fields, optional section (brought to an even length), data descriptors, and in every subset the same values, missing values, attributes and encoding details, in the same order; the encoded form is the one an independent encoder produces, and encoding what was decoded gives the same bytes again. This holds for editions 2, 3 and 4, for every element, operator, replication, bitmap and associated field the library supports, and whatever the process encoded, decoded or failed to do before. A bulletin with more subsets, or a longer encoded form, than a message can say is refused.",
        ["inputs", "histories", "fault_sequences"], "every bulletin within the supported features, after every history of other messages, failures and table loads in the same process",
        "The tests re-encode about 60 recorded messages; they never combine operators, edge values, many subsets and bitmaps freely, nor encode after failed operations.",
        ["wreport/bufr_encoder.cc", "wreport/buffers/bufr.cc", "wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/bulletin/associated_fields.cc", "wreport/varinfo.cc"],
        [("descriptor interpreter", "wreport/bulletin/interpreter.cc"), ("bit writer", "wreport/buffers/bufr.cc"), ("bit reader", "wreport/bufr/input.cc")],
        "A run builds 1-3 seeded bulletins through the public interface, encodes them (also after an encode that ran out of memory), compares with an independent encoder, sends them over a simulated stream, decodes, compares value by value, and encodes again; other messages, cut messages and starved decodes happen in between. Non-trivial: at least one full round trip.",
        REAL, [STREAM, HEAP, FS], NOTE + "Values stay within what the library can represent (integers of 32 bits, decimal digits implied by the bits). Trusts the independent encoder in sim/peer.cc.", 45, 900, ["round_trip", "bitmap", "associated_field", "operators", "replication", "sequence"])
    prop("P05", "CREX bulletins round trip, and conforming CREX decodes to what was sent",
        "Encoding a bulletin to CREX and decoding it gives a bulletin with the same header fields, data descriptors and, in every subset, the same values and missing values in the same order; the text is the one an independent encoder produces, with correct check digits when they are requested. CREX text from any conforming producer (any spacing and line breaks between groups, one or many subsets, check digits, an optional section) decodes without error to the values it carries, and encodes again to the canonical text. This holds for every element, fixed and delayed replication and sequence without operators, for text that does not begin with a space or consist of slashes only, whatever else the process handled before.",
        ["inputs", "histories", "fault_sequences", "schedules"], "every CREX bulletin within the supported features, every legitimate layout, after every history of other messages and failures",
        "The tests decode ten recorded messages with one subset each, none with check digits in several subsets; no independent producer exists.",
        ["wreport/crex_encoder.cc", "wreport/crex_decoder.cc", "wreport/buffers/crex.cc", "wreport/bulletin/interpreter.cc", "wreport/vartable.cc", "wreport/dtable.cc"],
        [("value writer", "wreport/buffers/crex.cc"), ("data section parser", "wreport/crex_decoder.cc")],
        "A run has 1-3 parties, interleaved at stream reads; each exchanges 1-3 seeded messages both ways (independent producer to library; library to sink and back), between cut messages, starved decodes and other traffic. Non-trivial: at least one full exchange.",
        REAL, [STREAM, HEAP, SCHED, FS], NOTE + "Trusts the independent producer in sim/crexpeer.cc. Table C operators in CREX are not supported by the encoder and are left out.", 40, 900, ["round_trip", "check_digit", "replication", "sequence", "string", "negative", "subsets"])
    prop("P06", "BUFR from any conforming producer decodes to exactly what it encoded",
        "A BUFR message from a producer that follows the standard, plain or compressed, in edition 2, 3 or 4, with any supported combination of elements, sequences, fixed and delayed replication, operators, associated fields and data present bitmaps, decodes without error to the header, values, missing values and attributes that the producer encoded, in each subset. Legitimate freedom of the producer (padding, extra octets at the end of sections, increment widths and bases chosen for compression, space or zero padded strings) makes no difference, and neither does other traffic, including messages that fail to decode, handled by the same process.",
        ["inputs", "histories", "fault_sequences", "schedules"], "every conforming message within the supported features, under every history and interleaving with other traffic",
        "The tests decode recorded messages and mostly check a few values or that re-encoding works; no independent producer exists, so a decoder and encoder that are wrong together pass.",
        ["wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bufr/input.h", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/bulletin/associated_fields.cc", "wreport/vartable.cc", "wreport/dtable.cc", "wreport/tables.cc"],
        [("data section decoder", "wreport/bufr/decoder.cc"), ("altered table entries shared by all messages", "wreport/vartable.cc")],
        "A run has 1-3 consumers, interleaved at stream reads, each receiving 1-3 messages from an independent producer over simulated transports; truncated messages, allocation failures and real traffic with other tables happen in between. Every decoded value is compared with the producer's. Non-trivial: at least one message judged.",
        REAL, [STREAM, HEAP, SCHED, FS], NOTE + "Trusts the independent producer in sim/peer.cc; features on which producers disagree (character data under bitmaps, repeated-data factors, associated fields on compressed strings) are left out.", 45, 900, ["message_judged", "compressed", "bitmap", "associated_field", "operators", "replication", "sequence"])
    prop("P07", "Damaged or hostile BUFR gives a bulletin or an error, never harm",
        "Whatever bytes are given to the BUFR decoder (damaged, truncated, spliced or invented, whole message or header only, plain or verbose), it returns a bulletin or raises one of the library's errors: it never reads or writes outside its memory, never hangs, never uses more time or memory than the subsets and repetitions the message declares justify, and never leaks. A bulletin it returns can be printed, compared with itself, copied, read value by value and encoded, with a result or a library error. The outcome depends on the bytes alone, and messages that follow are decoded correctly.",
        ["inputs", "fault_sequences", "histories"], "every byte string, after every history of other damaged and good messages",
        "The tests feed about twenty recorded broken messages and only check that decoding fails or not.",
        ["wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bufr/input.h", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/opcodes.h", "wreport/var.cc"],
        [("bounds-checked bit reader", "wreport/bufr/input.h"), ("section length scan", "wreport/bufr/input.cc"), ("bitmap bookkeeping", "wreport/bulletin/bitmaps.cc")],
        "A run sends 1-4 messages (from an independent producer, recorded traffic, or arbitrary descriptors and data), each hit by 0-9 seeded faults; each is decoded twice with different garbage in fresh memory, used in every way, checked for leaks (address sanitizer, allocation accounting, step and memory budgets), and good messages in between are judged value by value. Non-trivial: at least one message judged.",
        REAL, [HEAP, FS], NOTE + "Messages that declare an amount of repetition or subsets beyond a bound computed by the harness are not sent: the work they ask for is legitimate but unbounded.", 45, 900, ["judged", "accepted", "header_accepted", "reencoded", "good_after_damage", "arbitrary", "recorded", "from_producer"])
    prop("P08", "Damaged or hostile CREX gives a bulletin or an error, never harm",
        "Whatever text is given to the CREX decoder (damaged, truncated, spliced or invented, whole message or header only), it returns a bulletin or raises one of the library's errors: it never reads or writes outside its memory, never hangs and never leaks. A bulletin it returns can be printed, compared with itself, copied, read value by value and encoded, with a result or a library error. The outcome depends on the text alone, and messages that follow are decoded correctly.",
        ["inputs", "fault_sequences", "histories"], "every byte string, after every history of other damaged and good messages",
        "The tests feed well formed messages only.",
        ["wreport/crex_decoder.cc", "wreport/buffers/crex.cc", "wreport/bulletin/interpreter.cc", "wreport/var.cc"],
        [("bounds-checked text reader", "wreport/buffers/crex.cc"), ("section parsers", "wreport/crex_decoder.cc")],
        "As P07 with CREX text: 1-5 messages, each hit by 0-9 seeded faults, decoded twice and used in every way. Non-trivial: at least one message judged.",
        REAL, [HEAP, FS], NOTE + "Texts that declare repetition beyond a bound computed by the harness are not sent.", 40, 900, ["judged", "accepted", "header_accepted", "reencoded", "good_after_damage", "arbitrary", "recorded", "from_producer"])

    prop("P09", "What a message gives does not depend on what the process did before",
        "Decoding a message and printing, comparing, rebuilding and encoding the result gives, byte for byte, what a new process gives, whatever the process did before: other messages (good, damaged, with other tables), operations that ran out of memory or met a failing disk while loading tables, altered table entries, temporary options, requests for missing tables. It does not depend on the contents of uninitialised memory.",
        ["histories", "inputs", "fault_sequences"], "every history of other work, failures included, before any message",
        "The tests handle each message on its own, mostly in the same order and in a process in which nothing ever failed.",
        ["wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/crex_decoder.cc", "wreport/vartable.cc", "wreport/dtable.cc", "wreport/tables.cc", "wreport/internals/tabledir.cc", "wreport/bulletin.cc", "wreport/bulletin/interpreter.cc", "wreport/options.cc"],
        [("process-wide table caches", "wreport/vartable.cc"), ("table index", "wreport/internals/tabledir.cc"), ("decoder state", "wreport/bufr/decoder.cc")],
        "A run draws 1-3 messages, has a new process (forked before anything happened) handle each one, then handles them, in one or two rounds, in a process with a seeded history of other work and faults, and with other garbage in fresh memory; the full text of the outcomes is compared. Non-trivial: at least one message judged.",
        REAL, [HEAP, FS], NOTE + "Needs no model of the codec: the reference is the same code without the history.", 40, 900, ["judged", "decoded", "refused", "crex"])
    prop("P10", "Running out of memory is an error with no lasting effect",
        "If an allocation fails, once or from then on, at any point while a message is decoded (fully, header only or verbosely), printed, compared, rebuilt or encoded, the operation raises an out of memory error, or succeeds with exactly the result it has to give; nothing is leaked, the process does not end, and doing the same again with memory available gives the same result as ever.",
        ["fault_sequences", "inputs", "histories"], "every allocation of every operation on every message",
        "No test makes an allocation fail.",
        ["wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bufr_encoder.cc", "wreport/crex_decoder.cc", "wreport/crex_encoder.cc", "wreport/bulletin.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/bulletin/associated_fields.cc", "wreport/var.cc", "wreport/error.cc"],
        [("exception safety of the codec", "wreport/bufr/decoder.cc"), ("error reporting", "wreport/error.cc")],
        "A run draws 1-2 messages and what is done with each; after two undisturbed executions (which also count the allocations), 1-6 executions each have a seeded allocation fail, once or persistently, each followed by an undisturbed one; outcomes, allocation balance and address sanitizer are checked. Non-trivial: at least one starved execution judged.",
        REAL, [HEAP, FS], NOTE + "Table loading out of memory is P12's subject: here tables are loaded beforehand.", 40, 900, ["judged", "starved", "verbose", "crex", "encoded"])

    prop("P11", "Variables are independent values, whatever is done to them, even out of memory",
        "A variable holds exactly what was last given to it: every way of reading it (number, text, formatted, printed), of copying, moving, assigning (also to itself and across kinds), converting and comparing it, and of setting, replacing, listing and removing its attributes, and every way of filling and copying subsets, agrees with that and leaves other variables alone. A value outside the domain is refused, dropped or clamped as configured, never stored as another value, and a number is rounded to the nearest its kind of variable can hold; the name of a code or kind reads back as that code or kind, and one cut short is refused. If memory runs out the operation says so and leaves each variable with its previous value, the new one, or none; nothing leaks, and text handed to one thread is not changed by another.",
        ["inputs", "histories", "fault_sequences", "schedules"], "every history of operations on any number of variables and subsets, every failing allocation, every interleaving of threads with their own variables",
        "The tests make one or two operations on fresh variables of one kind; none fails an allocation, assigns across kinds or runs two threads.",
        ["wreport/var.cc", "wreport/var.h", "wreport/subset.cc", "wreport/subset.h"],
        [("value storage and copies", "wreport/var.cc"), ("subset storage", "wreport/subset.cc")],
        "A run has 1-2 threads, interleaved between operations and preempted inside them, each doing 4-43 seeded operations on 2-4 variables and two subsets of its own, a quarter of them with a failing allocation; after each, every variable is read in every way and compared with a reference model, and at the end nothing may remain allocated. Non-trivial: all.",
        ["wreport library sources, compiled from /repo's working tree (variables, subsets, options, notes)"], [HEAP, SCHED, FS], NOTE + "Equality between numbers of different scale, and whether a variable made from another takes its attributes, are not specified and not judged.", 30, 600, ["starved", "converted", "compared", "out_of_domain", "subset_op", "subset_copied", "bitmap_added", "text_kept", "threads", "preempted", "named_and_rounded"])

    TREAL = ["wreport library sources, compiled from /repo's working tree (table index, selection, table parsers, variables)"]
    prop("P12", "Table files load completely and correctly, or not at all, whatever the disk does",
        "Loading element and sequence tables gives exactly the entries in the files (code, description, unit, scale, reference, widths, sequence items), or an error: an I/O error, missing file, malformed line or lack of memory at any point is reported and never leaves a partial table in use, half of one set of tables with half of another, an open descriptor or a growing leak. Failures are not remembered: once the fault is gone or the file repaired the same load succeeds. Tables and entries handed out stay valid and unchanged, and loading again gives the same table.",
        ["inputs", "fault_sequences", "histories"], "every set of well-formed tables, every failing file system call or allocation, every order of loads, failures, repairs and alterations",
        "The tests load the shipped tables from a healthy disk and look at a few entries; nothing fails while a table is read.",
        ["wreport/vartable.cc", "wreport/dtable.cc", "wreport/tables.cc", "wreport/internals/tabledir.cc"],
        [("element table parser and cache", "wreport/vartable.cc"), ("sequence table parser and cache", "wreport/dtable.cc"), ("table set", "wreport/tables.cc")],
        "A run writes 1-5 seeded table files into simulated directories, some malformed, then loads them in 3-13 steps by path, name or message identifiers while file system calls (open, read, readdir, stat) or allocations fail once or persistently; every success is compared with the file entry by entry, and at the end every table must load. Non-trivial: at least one table loaded.",
        TREAL, [FS, HEAP], NOTE + "A description that fills all its 64 columns may lose the last character. Files do not change while they are being read.", 30, 600, ["loaded", "failed_by_fault", "malformed_refused", "repaired", "altered", "set_checked", "failed_again", "installed_table"])
    prop("P13", "The tables used for a message are the best match among those installed",
        "For the identifiers in a message, the tables used are those with the lowest master table version not older than requested; among these the ones of the same centre win over the standard ones and over those of other centres, and for the same centre the closest local version not older than requested, then the same subcentre; ties go to the directory configured first. If nothing suitable is installed the request fails as not found. The answer depends on the installed files and configured directories only: not on listing order, earlier requests, the way of asking, or faults met while directories were scanned.",
        ["inputs", "fault_sequences", "histories"], "every set of installed tables and directories, every listing order, every sequence of requests, and every failing file system call or allocation on the way",
        "The tests compare a few pairs of identifiers and look up a few shipped tables in the listing order of one disk.",
        ["wreport/internals/tabledir.cc", "wreport/tableinfo.cc", "wreport/tables.cc"],
        [("table index and cache", "wreport/internals/tabledir.cc"), ("match ordering", "wreport/tableinfo.cc")],
        "A run installs 1-14 seeded tables in 1-3 simulated directories (environment variables, trailing slashes, missing directories, stray files, shuffled listings), then makes 4-19 requests through table sets, table lookups and message headers, a third of them under a file system or allocation fault, and compares each answer with a reference selection. Non-trivial: at least one request judged.",
        TREAL, [FS, HEAP], NOTE + "Trusts the reference ranking. Directories do not change after the first successful scan. Between equally good tables in one directory any is accepted, always the same one.", 30, 600, ["selected", "none_suitable", "newer_used", "tie", "failed_by_fault", "by_name"])

    prop("P14", "Options and notes belong to the thread and the scope that set them",
        "What a thread configures for values outside their domain (silent, clamped, passed to a handler, refused) and where it collects notes applies to that thread only, from the moment it is set to the end of the scope that set it, also when the scope is left by an exception; then the previous setting is back. Threads start with nothing configured. Every note goes, whole and in order, to the stream its own thread is collecting in, or nowhere, and handlers are called in their own thread, once, with the variable and value concerned.",
        ["schedules", "histories"], "every interleaving of any number of threads, every nesting of scopes and every way of leaving them",
        "The tests use options and notes from one thread, one scope at a time.",
        ["wreport/options.h", "wreport/options.cc", "wreport/notes.h", "wreport/notes.cc", "wreport/var.cc"],
        [("per-thread settings", "wreport/options.cc"), ("per-thread notes", "wreport/notes.cc"), ("domain checks", "wreport/var.cc")],
        "A run has 2-3 threads, one running at a time, switched between operations, inside handlers and note streams, and between any two basic blocks of library code at seeded distances; each does 3-32 seeded operations in nested scopes and compares every outcome with its own model. Non-trivial: all.",
        ["wreport library sources, compiled from /repo's working tree (options, notes, variables)"], [SCHED], NOTE + "Sections protected by locks run as one step. Table loading is not thread safe by design and not exercised here.", 30, 600, ["silent", "clamped", "hooked", "refused", "noted", "discarded", "scope", "left_by_exception", "preempted"])

    prop("P15", "The command line tool treats every file and every message on its own",
        "For every list of input files and every option, the tool's output is, in order, exactly what the requested action gives for each message found in each file, whatever came before it: a message that cannot be decoded or a file that cannot be opened or read to the end is reported on standard error with its name (and offset), and the remaining messages and files are handled. The list of unparsable messages contains exactly those that cannot be decoded, byte for byte. If the output could not be written in full the exit status is not zero.",
        ["inputs", "fault_sequences"], "every set of input files, mix of good, damaged and truncated messages, failing open, read and write",
        "No test runs the tool.",
        ["src/wrep.cc", "src/input.cc", "src/output.cc", "src/iterate.cc", "src/unparsable.cc", "src/options.cc"],
        [("command line and file loop", "src/wrep.cc"), ("message loop", "src/input.cc"), ("copy of unparsable messages", "src/unparsable.cc")],
        "A run makes 1-4 seeded input files (missing, unreadable, truncated, failing at a seeded byte; messages well formed, damaged or recorded, with noise around them), runs the tool's main() once with a seeded action and output device, and compares output, reports and exit status with what the reference scanner and the library give message by message. Non-trivial: at least one message or unreadable file handled.",
        ["the command line tool's sources and the wreport library sources, compiled from /repo's working tree", "glibc getopt and stdio"], [FS, "standard output and standard error: simulated sinks, seeded write failures"], NOTE + "What an action prints for one message alone is taken from the library (its values are judged by the other properties).", 40, 600, ["messages", "bad_messages", "bad_files", "unparsable_mixed", "output_failed", "crex", "dump", "trace", "structure", "dds", "print", "unparsable", "tables", "features", "bad_command_line", "information"])

    FILES = ["wreport file utilities, compiled from /repo's working tree", "libstdc++ file system code (statically linked)"]
    prop("P16", "Replacing a file atomically leaves the old or the new file, never anything else",
        "At every moment while a file is being replaced atomically, wherever the process is interrupted and whatever fails, the destination is either what it was or a complete new version with the requested permissions less the umask, and readers see only such versions. If the operation succeeds the new version was there; if it fails the destination was not changed by it, the error says why, and no temporary file is left behind. Concurrent replacements do not mix, and the umask and other files are not affected.",
        ["fault_sequences", "schedules", "histories"], "every interleaving of writers and readers, every crash point, every failing or partial system call or allocation",
        "The test writes one small file once on a healthy disk.",
        ["wreport/utils/sys.cc", "wreport/utils/sys.h"],
        [("write to a temporary file and rename", "wreport/utils/sys.cc")],
        "A run has 1-3 writers and 0-2 readers working on 1-2 files of a simulated file system with seeded switches at every system call, short writes, a full disk, failing calls and allocations and left-over temporary files; after every change of the file system (every point at which a process can be killed) the destination is checked, and reads and writes are checked against the history of versions. Non-trivial: all.",
        FILES, [FS, HEAP, SCHED], NOTE + "A crash is the death of the process: what was written before is kept. Power loss is not judged (the data is not synced).", 30, 600, ["written", "failed", "read", "replaced", "concurrent_writers", "stale_temp"])
    prop("P17", "Whole buffers and files are read and written exactly, or an error says so",
        "Reading or writing a whole buffer or file transfers exactly the bytes asked for, once and in order, whatever the size of the pieces the system transfers them in; a file that ends early is told from one that ends before the first byte. When something fails an error with the cause is raised, no more than a beginning of the data was transferred, nothing outside the buffer is touched, and permissions of existing files do not change; the same goes for forcing data to the disk, truncating, and setting permissions, times or flags.",
        ["inputs", "fault_sequences", "histories"], "every sequence of operations, every pattern of short reads and writes, interruptions and errors",
        "The tests use small files for which every read and write completes in one piece.",
        ["wreport/utils/sys.cc", "wreport/utils/sys.h"],
        [("read and write loops", "wreport/utils/sys.cc"), ("whole file input and output", "wreport/utils/sys.cc")],
        "A run makes 3-16 seeded operations on one file (whole file reads and writes, buffer reads and writes, positional access, truncation, append mode, seeking, forcing to disk, permissions, times) of a simulated file system that transfers data in seeded pieces and fails seeded calls; contents, position, return values and errors are compared with a model after each. Non-trivial: all.",
        FILES, [FS], NOTE + "The file is not changed by others while it is being read.", 20, 400, ["file_written", "file_read", "read_full", "read_eof", "read_partial", "written", "failed", "synced", "sync_failed"])
    prop("P18", "Child processes get what was asked for, and their end is told truly and in time",
        "A child process starts with exactly the standard streams, open descriptors, directory, session, program, arguments and environment that were asked for, or ends with a failure status without doing its work; the calling process keeps its own descriptors, and none leaks or is closed twice, whatever fails. Polling and waiting report the end of the child if and only if it ended, with its status, at any later time too, whatever signals arrive; a wait with a time limit neither gives up before the limit nor goes on after it, ends soon after the child does, and leaves the handling of signals as it found it. Signals are only ever sent to a child that is running.",
        ["inputs", "schedules", "fault_sequences", "histories"], "every combination of redirections and descriptors, every moment at which the child ends or a signal arrives, every failing system call or allocation before and after the fork",
        "No test of the repository uses child processes; the moments at which a child ends or a signal arrives cannot be chosen by a test.",
        ["wreport/utils/subprocess.cc", "wreport/utils/subprocess.h"],
        [("fork and redirections", "wreport/utils/subprocess.cc"), ("poll and waits", "wreport/utils/subprocess.cc"), ("signals", "wreport/utils/subprocess.cc"), ("exec", "wreport/utils/subprocess.cc")],
        "A run drives 1-3 process objects (own code or another program) through 3-22 seeded operations (start, poll, wait with and without limit, terminate, kill, close streams, destroy) over a simulated process table, clock, signal dispositions and descriptors from 0 up; children's ends, other children and signals are aimed around the moments the wait looks, and pipe, fork, close, kill, the waits themselves and each call or allocation of the child's setup can fail; the application may take the child's status first. Non-trivial: all.",
        ["wreport subprocess utilities, compiled from /repo's working tree; the child's setup runs in a copy of the simulated world"],
        [FS, HEAP, "processes, signals, sleeping, exec: simulated process table behind the libc calls (linker --wrap)"],
        NOTE + "Descriptors 0, 1 and 2 of the calling process are open, a stream is not redirected to a standard stream that another redirection replaces, and time limits are not negative. An unlimited wait may fail with EINTR. The return code of a process killed by a signal is not judged, the raw status is.", 20, 400, ["child_ran", "setup_failed", "fork_failed", "exec", "pipe", "waited", "timed_out", "reaped", "signalled", "not_started", "interrupted", "too_late", "wait_failed", "stolen", "environment_copied"])
    prop("P19", "Descriptors are released exactly once, and tree removal never reaches outside",
        "Whatever sequence of operations is made on files, directories, mappings and temporary files, and whatever fails on the way, every descriptor and mapping obtained is released exactly once, by its owner, and destructors never end the process. Directory listings tell each entry's own kind, also when the file system does not. Removing a directory tree removes that tree and nothing outside it, whatever links it contains or become part of it meanwhile, and temporary files and directories are gone when their owner is.",
        ["inputs", "fault_sequences", "histories"], "every sequence of operations, every tree, every failing system call or allocation, and directories replaced by links during removal",
        "The tests open and remove a few files on one file system where nothing fails.",
        ["wreport/utils/sys.cc", "wreport/utils/sys.h"],
        [("descriptor ownership", "wreport/utils/sys.cc"), ("directory iteration and tree removal", "wreport/utils/sys.cc"), ("temporary files", "wreport/utils/sys.cc")],
        "A run makes 4-19 seeded operations on 3 sets of objects (open, close, move, assign, duplicate, list, iterate, map, temporary files and directories, tree removal, scoped helpers) over a simulated file system with seeded listing order, missing entry types, failing calls (also close) and allocations; after each, the open descriptors are compared with those the objects own and everything outside the removed tree with its state before. Non-trivial: all.",
        FILES, [FS, HEAP], NOTE + "The removed tree itself must be a directory. A directory is replaced by a link only at the top level of the tree.", 20, 400, ["listed", "iterator_moved", "tempfile", "tempdir", "tree_removed", "mapped", "failed"])
    prop("P20", "Printing a bulletin shows exactly its contents, comparing finds any change",
        "Printing a bulletin shows its header, tables and data descriptors and then every value of every subset once, in order, with its index (flat view) or the sequences and replications it is part of (structured view), and printing its data description shows each descriptor and its expansion at its level, whichever way the output is taken; a sink that fails keeps a beginning of it. Comparing two bulletins, in either direction, reports no difference when they hold the same, and a difference, with a note in the stream the calling thread collects in, when they differ in any header field their format carries, their tables, optional section, data descriptors, number of subsets or of values, or in any value, missing value or attribute of a value. A new bulletin is like an emptied one, whatever the memory held before.",
        ["inputs", "histories", "fault_sequences", "schedules"], "every bulletin within the supported features, every single change to it, every buffering and failure point of the sink, every interleaving with other threads printing and comparing",
        "The tests print a few messages to /dev/null or check one line, and compare bulletins that are expected to be equal.",
        ["wreport/bulletin.cc", "wreport/bulletin/dds-printer.cc", "wreport/bulletin/interpreter.cc", "wreport/subset.cc", "wreport/var.cc", "wreport/notes.cc"],
        [("flat and structured printing", "wreport/bulletin.cc"), ("structure printer", "wreport/bulletin/dds-printer.cc"), ("comparison", "wreport/bulletin.cc")],
        "A run has 1-3 parties, interleaved at writes to sinks and note streams; each makes 1-2 seeded BUFR or CREX bulletins (built or decoded), prints them in every view to simulated sinks (buffered in any way, some failing) and compares the text with one composed from the producer's knowledge, then makes 1-6 single changes to a copy and compares both ways, with and without collecting notes, also after running out of memory. Non-trivial: all.",
        REAL, [STREAM, HEAP, SCHED, FS], NOTE + "The text of single values is taken from the value printer, which P11 judges. In messages with bitmaps or associated fields the structured view is checked for every value in order, not for the text in between.", 30, 600, ["flat", "structured", "structured_attributes", "description", "description_operators", "change_found", "blank", "alike"])
    prop("P21", "File locks keep others out, and the outcome of each request is told truly",
        "A lock on part of a file is held from the moment a request for it succeeds until its owner releases or closes it, and while it is held for writing nobody else holds or gets any of it; locks of different openings of the same file exclude each other within one process too. A request that does not wait says no if and only if someone else holds a part; one that waits returns with the lock, or without it only when it was asked to give up on signals and one arrived; a test tells whether the lock could be had and takes nothing; any other failure is an error with its cause and changes nothing. Elapsed time is what passed on the clock, none when it went back, and a clock that cannot be read is an error.",
        ["schedules", "fault_sequences", "histories"], "every interleaving of parties, every moment at which a signal arrives, every failing call, every jump of the clock",
        "No test of the repository has two parties contend for a lock, a signal arriving during a wait, or a clock that jumps.",
        ["wreport/utils/sys.cc", "wreport/utils/sys.h"],
        [("locks", "wreport/utils/sys.cc"), ("clock", "wreport/utils/sys.cc")],
        "A run has 1-4 parties, interleaved at every system call, which open a file, try, wait for or test locks on seeded ranges (given in every way), change or read the records they locked, and release by unlocking, closing or closing duplicates, while signals interrupt waits and calls fail; a reference holds who owns what, and no increment made under a lock may be lost. Then a clock is read across seeded jumps. Non-trivial: all.",
        FILES, [FS, SCHED, "locks, clock: simulated behind fcntl and clock_gettime (linker --wrap)"], NOTE + "A party never waits for a lock while it holds another.", 20, 400, ["locked", "refused", "lock_waited", "locked_after_signal", "gave_up_on_signal", "test_taken", "test_free", "released", "released_by_close", "kept_by_duplicate", "contended", "elapsed"])
    prop("P22", "Looking up and changing directory entries does just that, or says why not",
        "Every function that looks at or changes entries of directories, given a whole path or a name inside an open directory, acts on exactly the entry asked for, on a link or on what it leads to as documented, and changes nothing else. Whether something was there, was made or was removed is told truly; something missing is told from every other failure, which is raised as an error with its cause and without effect. Missing directories are made whoever else is making them, links of any length are read whole, and a program is found in the first directory of the search path that has it.",
        ["inputs", "fault_sequences", "histories", "schedules"], "every sequence of operations on every kind of entry, every failing system call, directories made by others meanwhile",
        "The tests call some of these functions on one file system where nothing fails.",
        ["wreport/utils/sys.cc", "wreport/utils/sys.h"],
        [("entries of an open directory", "wreport/utils/sys.cc"), ("whole paths", "wreport/utils/sys.cc")],
        "A run makes 6-29 seeded operations (36 kinds, all overloads) on a simulated tree with files, directories and links of every sort, with failing calls and another process making directories at the same time; results, errors and the whole tree are compared with a reference after each. Non-trivial: all.",
        FILES, [FS], NOTE + "Renaming is judged between entries of one directory; a directory with the name of the program in the search path is not tried.", 20, 400, ["done", "failed", "natural_error", "made", "made_in_a_race", "removed", "renamed", "link_read", "which"])
    prop("P23", "Unit and code conversions are right, whoever uses them first",
        "Converting a number between two units the library knows gives the value that the definitions of the units give, converting it back gives the original, and units it cannot convert between, or a code or direction beyond its table, are an error and never a value; converting cloud, weather, sounding significance and direction codes does the same for every code. This holds for the first conversion in a process and for any later one, for threads that convert at the same time, and when copying a variable into one with another unit. Running out of memory is reported, leaks nothing and does not change later results.",
        ["inputs", "schedules", "fault_sequences", "histories"], "every pair of units, every value and code, every interleaving of the first uses, every failing allocation",
        "The tests convert a few values in one thread, after the tables have been built.",
        ["wreport/conv.cc", "wreport/var.cc"],
        [("unit conversions", "wreport/conv.cc"), ("copying a variable to another unit", "wreport/var.cc")],
        "A run makes seeded conversions of 10 kinds, over every pair of units and every code table, in one process that starts with none made: either one after the other with failing allocations at any point, or in 2-3 threads preempted at any point; results are compared with the definitions of the units and the published tables, and what the process keeps with what it keeps when nothing fails. Non-trivial: all.",
        REAL, [HEAP, SCHED], NOTE + "Values are judged to 4 digits, as the library's factors are.", 20, 400, ["unit", "there_and_back", "refused", "direction", "code", "level", "variable", "out_of_memory", "preempted", "threads"])
