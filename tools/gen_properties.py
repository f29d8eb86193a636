#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
            observe_at=observe or [], hook_needed=None)))

prop("C01", "A sink's queue is a lossless single-producer/single-consumer byte FIFO",
 "Bytes put into a sink's queue by the writing thread come out of it exactly once, unmodified and in order, for every interleaving with the reading thread, every fill level and every wrap-around of the queue or of its internal counters. Space handed to the writer never overlaps data not yet consumed, and space handed to the reader contains only completely written data. A blocking request for space completes once the reader has made room, and every access the two threads make to the same queue memory is ordered (no data race).",
 ["schedules","inputs","histories"],
 "All interleavings of one producer and one consumer, all queue fill states/offsets (including counter wrap-around), all record sizes.",
 "The ring buffer tests run from the initial state on x86 with whatever interleavings the scheduler yields; counters never wrap and a weakened memory order is invisible on x86.",
 ["include/xtr/detail/synchronized_ring_buffer.hpp","src/mirrored_memory_mapping.cpp"],
 [("release/acquire published read/write counters","include/xtr/detail/synchronized_ring_buffer.hpp write_span/reduce_writable/read_span/reduce_readable"),
  ("mirrored mapping so that a span is contiguous","src/mirrored_memory_mapping.cpp")],
 ["write_span()/reduce_writable()/read_span()/reduce_readable() results","queue memory"],
 [("write counter/read counter","bytes published/consumed","synchronized_ring_buffer.hpp")])

prop("C02", "Every blocking log statement appears exactly once, whole and in order",
 "Each log statement made on an open sink with a blocking macro, whose level is enabled, results in exactly one line in the data handed to the logger's storage back-end, containing exactly its level, timestamp, sink name and formatted arguments. Lines of one sink appear in the order in which the statements were made, and lines of different sinks are never interleaved within a line, lost, repeated or attributed to another sink. This holds for every number of sinks, every mix of argument types and sizes that fit the queue, and every interleaving of logging threads with the background thread.",
 ["schedules","inputs","histories"],
 "All schedules of application threads and the background thread, all argument values, all sequences of record sizes incl. those that wrap the queue.",
 "Tests log a few fixed lines and compare output after sync(); wrap-around positions, record sizes and thread interleavings are only sampled.",
 ["include/xtr/sink.hpp","include/xtr/detail/trampolines.hpp","include/xtr/detail/print.hpp","src/consumer.cpp","src/buffer.cpp"],
 [("record size computation and record dispatch agree","include/xtr/sink.hpp post/post_with_str_table, include/xtr/detail/trampolines.hpp"),
  ("read loop bounded to first mapping","src/consumer.cpp run")],
 ["storage_interface::submit_buffer data"])

prop("C03", "Log arguments are captured by value when logged and destroyed exactly once",
 "The value printed for an argument is the value it had when the log statement executed, no matter what the application does to the original afterwards (modify, free, reuse), for scalars, user-defined types, pointers to character arrays, std::string and std::string_view; an argument passed with std::move is moved and never copied. Each captured object is constructed once, is used at an address suitably aligned for its type, and is destroyed exactly once after it has been formatted, without the record of one statement ever overlapping another's.",
 ["inputs","schedules","histories"],
 "All argument values, sizes, alignments and types (fixed set of representative types), all times at which the application mutates the original.",
 "Tests use a handful of concrete values and types; alignment, overlap and lifetime errors depend on the queue position and need not change the printed text.",
 ["include/xtr/sink.hpp","include/xtr/detail/string_table.hpp","include/xtr/detail/trampolines.hpp","include/xtr/detail/align.hpp"],
 [("copy into the queue","include/xtr/sink.hpp copy/make_lambda"),("string table","include/xtr/detail/string_table.hpp"),("destructor call in trampolines","include/xtr/detail/trampolines.hpp")],
 ["formatted line","constructor/destructor calls of logged objects"])

prop("C04", "String arguments are always sanitized",
 "Whatever bytes a string argument contains (terminal escapes, newlines, backslashes, NUL, high-bit bytes), the logged line contains only printable characters for it: each non-printable byte, and each backslash, appears as \\xHH with two upper-case hexadecimal digits and every other byte appears unchanged. This holds for every way of passing a string (character pointer or array, std::string of any value category, std::string_view, nocopy references) so log contents cannot forge lines or inject terminal sequences.",
 ["inputs"],
 "All string contents up to the bounded length, every supported string argument kind.",
 "The tests feed a few fixed strings through a few argument kinds.",
 ["include/xtr/detail/sanitize.hpp","include/xtr/detail/string_ref.hpp","include/xtr/detail/string_table.hpp","include/xtr/detail/print.hpp"],
 [("sanitize_char_to","include/xtr/detail/sanitize.hpp"),("string_ref formatters","include/xtr/detail/string_ref.hpp")],
 ["formatted line"])

prop("C05", "Non-blocking logging never waits, and every drop is whole and accounted for",
 "A non-blocking log statement never waits for the background thread. It either places the complete message in the queue or drops the complete message, never part of it; the only partial effect permitted is replacing an over-long string argument with \"<truncated>\". Every drop is counted: the counts reported in \"N messages dropped\" lines (and status replies) add up to exactly the number of messages dropped.",
 ["schedules","inputs","histories"],
 "All fill levels of the queue, all message sizes, all interleavings with the background thread.",
 "Tests fill the queue once with the consumer paused; boundary sizes and races between dropping and draining are not controlled.",
 ["include/xtr/detail/synchronized_ring_buffer.hpp","include/xtr/sink.hpp","include/xtr/detail/string_table.hpp","src/consumer.cpp"],
 [("single retry, then empty span and dropped counter","include/xtr/detail/synchronized_ring_buffer.hpp write_span"),("dropped report","src/consumer.cpp run"),("truncation","include/xtr/detail/string_table.hpp")],
 ["storage data","dropped lines"])

prop("C06", "Making a log statement performs no allocation, lock or system call",
 "Executing a log statement on an open sink (any blocking or non-blocking macro, with scalar, string, string_view and trivially copyable arguments) performs no memory allocation, takes no lock, makes no system call and throws no exception on the logging thread, whatever the argument values, string lengths and queue state; formatting and I/O happen only on the background thread.",
 ["inputs","histories"],
 "All argument values and lengths within bounds, all queue fill states.",
 "Allocation and locking on a rare path (e.g. a full queue or long string) do not change any output a test compares.",
 ["include/xtr/sink.hpp","include/xtr/detail/string_table.hpp","include/xtr/detail/synchronized_ring_buffer.hpp"],
 [("placement construction into the queue","include/xtr/sink.hpp")],
 ["calls made on the logging thread"])

prop("C07", "sync() returns only after everything logged before it is stored and synced",
 "When sync() on a sink returns, every statement previously logged on that sink has been formatted and handed to the storage back-end, the back-end's flush and then sync have been called after the last of that data, and this ordering is visible to the calling thread. sync() always returns, for every interleaving with the background thread and other sinks.",
 ["schedules","histories","inputs"],
 "All interleavings of the caller and background thread, all queue states.",
 "The tests rely on sync() themselves, on one scheduler; a missed wake-up or a premature return is schedule dependent.",
 ["src/sink.cpp","src/consumer.cpp","src/buffer.cpp"],
 [("sync_post hand-shake","src/sink.cpp sync_post"),("flush then storage sync","src/sink.cpp sync, src/buffer.cpp flush")],
 ["storage_interface calls"])

prop("C08", "Closing a sink or logger loses nothing and leaves nothing behind",
 "Closing or destroying a sink returns only after every statement logged on it has been processed, and from then on the background thread never touches the sink, so its memory may be reused. Destroying the logger waits for its sinks to disconnect, then for the background thread, and everything logged has by then been handed to the storage, which is flushed and destroyed exactly once. No schedule deadlocks, races or uses freed memory.",
 ["schedules","histories"],
 "All orders and interleavings of close/destruction with the background thread, several sinks.",
 "Use-after-free or lost data in the shutdown window depends on the schedule; tests see one.",
 ["src/sink.cpp","src/consumer.cpp","src/logger.cpp","include/xtr/logger.hpp","src/buffer.cpp"],
 [("destroy flag processed by the background thread","src/sink.cpp close, src/consumer.cpp run"),("join in the destructor","include/xtr/logger.hpp")],
 ["storage data","memory accesses"])

prop("C09", "Log levels filter exactly, and fatal statements are durable",
 "For every sink level and statement level, a levelled statement is logged if and only if its level is at least as important as the sink's level at that moment, and when it is filtered out its arguments are not evaluated; unlevelled statements are logged at every level. A fatal statement that is logged reaches the storage and is synced before the process aborts, and never returns.",
 ["inputs","configurations"],
 "All pairs of sink level and statement level, all macro variants.",
 "Tests exercise single transitions per macro; evaluation of arguments and durability of fatal lines under all levels is not covered.",
 ["include/xtr/log_macros.hpp","include/xtr/sink.hpp"],
 [("level check before the statement","include/xtr/log_macros.hpp"),("sync then abort","include/xtr/log_macros.hpp")],
 ["storage data","argument evaluation","abort"])

prop("C10", "The storage back-end receives exactly the formatted bytes, whatever its buffers",
 "For any custom back-end and any buffer sizes it returns, including buffers smaller than a line, the concatenation of the bytes submitted equals the concatenation of the formatted lines. Each buffer obtained from the back-end is filled only within its bounds, submitted at most once, with a non-zero size no larger than the buffer, in the order obtained, and is never written after being submitted; data is flushed by submitting it and then calling flush.",
 ["inputs","histories","configurations"],
 "All buffer size sequences the back-end may return, all line lengths within bounds.",
 "Tests use one 64 KB-like buffer; the boundary when a line exactly fills or straddles buffers is not explored.",
 ["src/buffer.cpp","include/xtr/detail/buffer.hpp","include/xtr/io/storage_interface.hpp"],
 [("next_buffer/flush/append","src/buffer.cpp")],
 ["storage_interface calls"])

prop("C11", "The POSIX file back-end writes every byte once, in order, despite partial writes",
 "Every byte submitted to the POSIX storage is written to the file descriptor exactly once and in order, for every pattern of short writes and interrupted calls; an error other than interruption is reported on stderr, nothing already written is written a second time when the write is attempted again, and at most the remainder of that buffer is lost. sync() reaches fsync on the same descriptor.",
 ["fault_sequences","inputs"],
 "All sequences of write(2)/fsync(2) results (short counts, EINTR, errors).",
 "The kernel never returns short writes to regular files in the tests.",
 ["src/posix_fd_storage.cpp","src/fd_storage_base.cpp","include/xtr/detail/retry.hpp"],
 [("write loop","src/posix_fd_storage.cpp submit_buffer"),("retry","include/xtr/detail/retry.hpp")],
 ["write/fsync calls"])

prop("C12", "The io_uring back-end writes every byte once at the right offset",
 "Every byte submitted to the io_uring storage is written exactly once at its place in the file, for every order of completions, short write, EAGAIN and error result. A buffer with I/O in flight is never handed out again or modified, the number of outstanding operations never exceeds the ring, sync() does not return before every earlier submission has completed and fsync was issued, and destruction waits for outstanding I/O.",
 ["fault_sequences","schedules","histories"],
 "All completion orders and results (full, short, -EAGAIN, error) over a bounded number of submissions, all batch/queue sizes within bounds.",
 "The test stubs inject a few single faults with one ordering.",
 ["src/io_uring_fd_storage.cpp","include/xtr/io/io_uring_fd_storage.hpp"],
 [("free list, pending counters, resubmission","src/io_uring_fd_storage.cpp")],
 ["prepared submission entries","buffers handed out"])

prop("C13", "Log rotation (reopen) neither loses nor misdirects data and owns descriptors",
 "On reopen everything logged before it goes to the old file and everything after it to the newly opened file, the old descriptor is closed exactly once, and if opening fails the old file continues to be used with the error returned to the requester. A storage without a reopen path reports an error and changes nothing. Descriptors opened by the library are closed exactly once, none are leaked and no other descriptors are closed.",
 ["fault_sequences","histories"],
 "All results of open/dup/fcntl/close, any sequence of reopen operations.",
 "Tests reopen once successfully; leaks, double closes and error paths are not observable in output.",
 ["src/fd_storage_base.cpp","src/fd_storage.cpp","src/file_descriptor.cpp","src/posix_fd_storage.cpp","src/io_uring_fd_storage.cpp"],
 [("dup2-style replace","src/fd_storage_base.cpp reopen/replace_fd"),("owning descriptor","src/file_descriptor.cpp")],
 ["open/close/dup calls"])

prop("C14", "The command server survives any client",
 "For every sequence of connections, disconnections, datagrams of any size and content, system-call failures and slow readers on the command socket, the background thread does not crash, read or write out of bounds, block, leak descriptors or use a closed one; malformed or unknown requests produce an error response or are ignored, have no other effect, and other clients and logging continue to be served. When set_command_path() returns, the logger listens at the new path and no longer at the old one.",
 ["inputs","fault_sequences","histories"],
 "All frame contents and sizes, all results of poll/accept/recvmsg/sendmsg, bounded number of events and clients.",
 "Tests send a few well-formed and malformed frames with no faults.",
 ["src/command_dispatcher.cpp","include/xtr/detail/commands/*.hpp","src/consumer.cpp"],
 [("frame length checks and dispatch by id","src/command_dispatcher.cpp"),("pollfd bookkeeping","src/command_dispatcher.cpp")],
 ["sendmsg payloads","descriptors closed"])

prop("C15", "status and set-level act on exactly the matching sinks",
 "A status command reports every registered sink whose name matches the pattern once, with its true name, level, capacity, queued bytes and dropped count, and no other; a set-level command sets the level of exactly the matching sinks to the requested level and leaves all other sinks alone. Requests with an invalid level or pattern are answered with an error and change nothing. The logger's internal sink is never affected or reported.",
 ["inputs","histories"],
 "All patterns/levels/names within bounds, all sets of registered sinks and registration/close histories.",
 "Tests check a few patterns over fixed sinks.",
 ["src/consumer.cpp","src/matcher.cpp","src/wildcard_matcher.cpp","src/regex_matcher.cpp","include/xtr/detail/strzcpy.hpp"],
 [("status/set_level handlers","src/consumer.cpp"),("matchers","src/matcher.cpp")],
 ["response frames","sink levels"])

prop("C16", "Timestamps are correct for every time",
 "For every clock reading, before or after the epoch, a log line's timestamp is the UTC calendar date and time of that reading with microseconds truncated, and its nanosecond part is always within [0, 1e9). Timestamps supplied by the application are printed unchanged in value; other lines show a time at which they were being written by the background thread, never one before the return of an earlier sync() on the same sink or after the return of a later one. TSC readings convert to the wall-clock time they were taken at (to within a nanosecond of rounding, where the wall clock runs at the rate of the TSC), from the moment the machine starts and however long after the reading the conversion takes place. The TSC frequency is the one CPUID states (crystal clock * numerator / denominator), and is measured against the system clock when CPUID does not state it.",
 ["inputs"],
 "All clock readings in the years 0000 to 9999 that the clock can represent.",
 "Tests use one fixed time.",
 ["include/xtr/logger.hpp","include/xtr/timespec.hpp","src/tsc.cpp","include/xtr/detail/tsc.hpp","include/xtr/detail/get_time.hpp"],
 [("make_clock","include/xtr/logger.hpp"),("timespec formatter","include/xtr/timespec.hpp"),("tsc conversion","src/tsc.cpp")],
 ["formatted timestamp"])

prop("C17", "Sink registration, copy, assignment, renaming and re-registration are faithful",
 "A sink created by get_sink, registered, copied or copy-assigned is connected to the right logger under the right name with the right level (copies take the source's current name and level), and lines it logs carry the name in force when they were logged. Closing and registering again works any number of times, assignment first completes what was logged on the old connection, and self-assignment or closing a closed sink has no effect.",
 ["histories","schedules"],
 "All bounded sequences of registration/copy/assign/rename/close operations and their interleavings with the background thread.",
 "Tests cover one or two fixed sequences.",
 ["src/sink.cpp","src/logger.cpp","src/consumer.cpp"],
 [("operations posted through the sink's own queue","src/sink.cpp"),("add_sink","src/consumer.cpp")],
 ["storage data","is_open()","level()"])

prop("C18", "Logger functions may be called concurrently from any threads",
 "Any logger member functions (creating or registering sinks, setting the command path, level style or default level) may be called concurrently from several threads, while other threads log to or set levels of their own sinks, without data race, deadlock, lost registration or corrupted output.",
 ["schedules"],
 "All interleavings of two concurrent logger calls and the background thread within the preemption bound.",
 "Tests call these functions from one thread.",
 ["src/logger.cpp","include/xtr/logger.hpp","src/sink.cpp"],
 [("control mutex","src/logger.cpp")],
 ["memory accesses","storage data"])

prop("C19", "Queue memory is a true double mapping, and failures leak nothing",
 "The memory backing a sink's queue consists of two adjacent views of the same memory: a byte written through one is read through the other, for every length. If any system call needed to set it up fails, an exception is thrown and nothing mapped or opened remains; destruction and moves release each mapping exactly once.",
 ["fault_sequences","inputs"],
 "All failure points of the mapping calls, all lengths that are page multiples within bounds.",
 "Tests inject no mapping failures.",
 ["src/mirrored_memory_mapping.cpp","src/memory_mapping.cpp","src/pagesize.cpp"],
 [("mmap/mremap or mmap/MAP_FIXED","src/mirrored_memory_mapping.cpp")],
 ["mmap/munmap calls"])

prop("C20", "Idle data is flushed without help",
 "Once logging stops, everything logged so far is handed to the storage and flushed by the background thread by itself, within a bounded number of passes over the sinks and without requiring sync(), close() or further logging on any sink, for every number of sinks and every order in which they fall idle or are closed.",
 ["schedules","histories"],
 "All interleavings of logging and the background thread, several sinks, sinks closed at any time.",
 "Tests call sync() before looking at the output.",
 ["src/consumer.cpp","src/buffer.cpp"],
 [("flush countdown","src/consumer.cpp run")],
 ["storage_interface submit/flush calls"])

prop("C21", "A failing formatter or back-end cannot take down logging",
 "If formatting a statement's arguments or handing data to the back-end throws an exception derived from std::exception, the exception is contained on the background thread and reported, the failing statement's arguments are still destroyed exactly once, and statements logged before and after it, on the same or other sinks, are logged as usual.",
 ["fault_sequences","inputs"],
 "Any statement in the sequence fails, at any point of formatting.",
 "Tests throw once from one formatter.",
 ["include/xtr/detail/print.hpp","include/xtr/detail/trampolines.hpp","src/buffer.cpp"],
 [("try/catch in print","include/xtr/detail/print.hpp")],
 ["storage data","stderr reports"])

prop("C22", "Container and tuple arguments format completely for every content",
 "Containers, associative containers, pairs and tuples are printed as all of their elements in order with the documented punctuation, for every number of elements including zero, and are captured by value like any other argument.",
 ["inputs"],
 "All element counts and values within bounds.",
 "Tests print one or two fixed containers of each kind.",
 ["include/xtr/formatters.hpp"],
 [("fmt::formatter specialisations","include/xtr/formatters.hpp")],
 ["formatted line"])

prop("C23", "Level names, level styles and level parsing are mutually consistent",
 "Converting a level's name to a level gives that level, any other string is rejected with std::invalid_argument, and both built-in level styles and custom styles, given to any constructor or set later, prefix each line with the prefix for the level of its statement. A style change takes effect for statements processed after it and never mixes styles within a line.",
 ["inputs","configurations"],
 "All strings up to the bound and all levels.",
 "Tests check individual strings.",
 ["src/log_level.cpp","include/xtr/log_level.hpp","src/logger.cpp"],
 [("level tables","src/log_level.cpp")],
 ["returned strings/levels","storage data"])

prop("C24", "Socket path selection and fixed-size string fields handle every input safely",
 "Strings of any length supplied for socket paths, sink names and error texts are copied into fixed-size fields always NUL-terminated, never beyond the field, and truncated rather than overflowed; a socket path that does not fit is refused. The default socket path is inside the runtime directory when that is accessible and inside the temporary directory otherwise, and distinct loggers of one process get distinct paths.",
 ["inputs","configurations"],
 "All string lengths and contents within bounds, all environment variable/accessibility combinations.",
 "Tests use short strings and one environment.",
 ["include/xtr/detail/strzcpy.hpp","src/command_path.cpp","include/xtr/detail/commands/connect.hpp","src/command_dispatcher.cpp"],
 [("strzcpy","include/xtr/detail/strzcpy.hpp"),("default_command_path","src/command_path.cpp")],
 ["returned path","buffers"])

prop("C25", "xtrctl sends exactly the request described and shows every response",
 "For every command line, xtrctl either sends exactly one request over a connection to the given socket path, being the command, log level, pattern and pattern type (basic regular expression by default) that the command line states, with options accepted before or after the operands; or it sends nothing, reports an error (or the requested help) and exits with a non-zero status (zero for help). It never sends a request that differs from what was asked for, such as a shortened pattern. Every success and sink description received is printed, sinks in the order of their names with level, capacity, use and dropped count; an error response, a malformed response or a failing connection is reported and gives a non-zero status. Interrupted system calls are retried.",
 ["inputs","fault_sequences"],
 "All command lines, responses and failures within bounds.",
 "xtrctl has no tests.",
 ["src/xtrctl.cpp","include/xtr/detail/commands/ios.hpp","include/xtr/detail/commands/connect.hpp","include/xtr/detail/commands/send.hpp","include/xtr/detail/commands/recv.hpp"],
 [("main","src/xtrctl.cpp"),("operator<<","include/xtr/detail/commands/ios.hpp")],
 ["request datagram","standard output","exit status"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
