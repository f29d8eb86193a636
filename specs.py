"""What each property's check runs: harness entries, parameters, bounds."""
SPECS = {}
COMMON = [
    "clang-18 -O1 LLVM IR of /repo/src and include stands for the code the build compiles with g++",
    "libc, libstdc++ and fmt's compiled parts are replaced by the models in env/ (listed in DESIGN.md)",
    "interleavings at atomic operations, mutex and condition-variable operations under sequential consistency, with vector-clock data-race detection from the declared memory orders",
]

def spec(pid, harness, jobs, bounds, outside, defines=(), assumptions=(), api=None):
    SPECS[pid] = dict(api=api, harness=harness, jobs=jobs, bounds=bounds, outside=outside, defines=tuple(defines), assumptions=COMMON + list(assumptions))

def J(entry, reach=(), time=None, preempt=None, weight=1, harness=None, defines=None, instr=None, **params):
    d = dict(entry=entry, reach=tuple(reach), params=params, weight=weight)
    if harness: d["harness"] = harness
    if defines is not None: d["defines"] = tuple(defines)
    if time: d["time"] = time
    if instr: d["instr"] = instr
    if preempt is not None: d["preempt"] = preempt
    return d

def c01(tier):
    q = tier == "quick"
    n = 4 if q else 5
    js = [J("c01_seq_%s" % c, ("publish", "consume", "granted", "refused", "cleared"), nops=n) for c in ("64", "128", "256", "512", "64k", "128k", "dyn")]
    js += [J("c01_laps", ("over 4 GiB", "publish", "consume"), nops=2 if q else 3), J("c01_laps_dyn", ("over 4 GiB", "publish", "consume"), nops=1 if q else 2)]
    js += [J("c01_data", ("wrapped",), rounds=2 if q else 3),
           J("c01_threads", ("wrapped", "done"), preempt=3 if q else 5, n=3 if q else 4),
           J("c01_nonblocking", ("dropped", "none dropped"), preempt=2 if q else 4, n=3)]
    return js
spec("C01", "c01", c01,
     "capacities 64 to 131072 and dynamic; histories of 4 (thorough 5) operations with symbolic amounts; two threads, 3 (4) records, 3 (5) preemptions",
     "longer histories, more preemptions, weak-memory reorderings not caught as data races")

BIG = 3000000000
CAP128 = ("-DXTR_SINK_CAPACITY=128",)
CAP256 = ("-DXTR_SINK_CAPACITY=256",)

def c02(tier):
    q = tier == "quick"
    return [J("c02_history", ("done",), preempt=0, k=4 if q else 5),
            J("c02_history", ("done",), preempt=1, k=3, weight=3) if q else J("c02_history", ("done",), preempt=2, k=3, weight=3),
            J("c02_two", ("done",), preempt=2 if q else 3, weight=4),
            J("c02_sinks", ("done",), preempt=2 if q else 3, weight=2), J("c02_sinks_many", ("done",), preempt=0, instr=BIG), J("c02_lines_many", ("done",), preempt=0, instr=BIG, n=3000 if q else 70000)]
spec("C02", "c02", c02,
     "one sink, histories of 4 (5) statements of 7 argument shapes without preemption, 3 with 1 (2) preemptions; 2 logging threads with 2 (3) preemptions; 2 sinks opened/closed by one thread; queue 128 bytes, 64-byte pages; argument bytes symbolic; one history each of 300 sinks and of 3000 (70000) lines",
     "longer histories, more threads/sinks/preemptions, other argument types (C03, C04, C22)", CAP128)

def c03(tier):
    q = tier == "quick"
    return [J("c03_objects", ("done",), preempt=0, k=2 if q else 3),
            J("c03_objects", ("done",), preempt=1, k=2, weight=5),
            J("c03_strings", ("done",), preempt=1 if q else 2, weight=2),
            J("c03_wrap", ("done",), preempt=0, k=4, weight=4),
            J("c03_mixed", ("done",), preempt=1, weight=2),
            J("c03_long", ("done",), preempt=0, harness="c03long", defines=(), instr=BIG, pairs=0 if q else 1, weight=1 if q else 9), J("c03_large", ("done",), preempt=0, harness="c03long", defines=(), instr=BIG)] + ([] if q else [J("c03_objects", ("done",), preempt=2, k=1, weight=4)])
spec("C03", "c03", c03,
     "1 or 2 (3) log statements with symbolic argument bytes and lengths to 3 characters, 0 to 1 (2) preemptions, every alignment of the write position the history reaches; queue 256 bytes; on a queue of the default size pairs of strings of 16 lengths to 70000 (16 pairs; thorough all 256) and statements of up to 12 arguments and objects to 40000 bytes aligned to 128",
     "other argument combinations; strings and objects longer than that", CAP256, api="c03_api.cpp")

def c04(tier):
    q = tier == "quick"
    return [J("c04_all", ("done",), preempt=0, n=2 if q else 3),
            J("c04_several", ("done",), preempt=0), J("c04_place", ("done",), preempt=0, weight=2, defines=("-DXTR_SINK_CAPACITY=1024",))]
spec("C04", "c04", c04,
     "every string type the logger accepts, contents of 2 (3) symbolic bytes, several strings in one statement; one symbolic byte at the chosen places of strings of chosen lengths to 200; queue 256 (1024) bytes",
     "longer strings", CAP256)

def c05(tier):
    q = tier == "quick"
    return [J("c05_history", ("all logged", "dropped", "truncated", "done"), preempt=0, k=3 if q else 4),
            J("c05_history", ("dropped", "done"), preempt=1, k=2, weight=5),
            J("c05_count", ("dropped",), preempt=0), J("c05_ring", ("dropped", "none dropped"), preempt=3 if q else 5), J("c05_race", ("dropped", "done"), preempt=2 if q else 3), J("c05_many", ("done",), preempt=0, instr=BIG)]
spec("C05", "c05", c05,
     "histories of 3 (4) non-blocking statements, 2 with 1 preemption, strings of symbolic length to beyond the queue's free space; bursts of 300 and 66000 attempts; queue 128 bytes",
     "longer histories; more preemptions", CAP128)

def c06(tier):
    q = tier == "quick"
    return [J("c06_long", ("done",), preempt=0, harness="c06long", defines=(), instr=BIG, weight=2), J("c06_many", ("done",), preempt=0, harness="c06long", instr=BIG, n=5000 if q else 70000), J("c06_all", ("done",), preempt=0, k=2, fill=0), J("c06_all", ("done",), preempt=1, k=1 if q else 2, fill=0, weight=2), J("c06_all", ("done",), preempt=0, k=1, fill=16)] + (
            [] if q else [J("c06_all", ("done",), preempt=1, k=1, fill=16, weight=5)])
spec("C06", "c06", c06,
     "1 or 2 statements of each kind, 0 or 1 preemptions; queue of 128 bytes, empty or filled with 0 to 16 records of 8 bytes; on a queue of the default size strings of 21 lengths to 300000 bytes and runs of 5000 (70000) statements", "longer histories", CAP128)

def c07(tier):
    q = tier == "quick"
    sd = ("synced", "done")
    return [J("c07_history", sd, preempt=0, k=4 if q else 5), J("c07_history", sd, preempt=1, k=3 if q else 4, weight=3),
            J("c07_history", sd, preempt=2, k=2 if q else 3, weight=4), J("c07_history", sd, preempt=0, k=3, spurious=1),
            J("c07_two", ("done",), preempt=0), J("c07_two", ("done",), preempt=1, weight=6),
            J("c07_sinks", sd, preempt=0, k=4), J("c07_sinks", sd, preempt=1, k=3, weight=2), J("c07_many", ("done",), preempt=0, harness="c07many", defines=(), instr=BIG)]
spec("C07", "c07", c07,
     "histories of 4 (5) log/sync/close operations, fewer with 1 or 2 preemptions or a spurious wake-up; two threads syncing concurrently with 1 preemption; two sinks; two syncs of 17 to 2000 lines each",
     "longer histories, more threads or preemptions", CAP128)

def c08(tier):
    q = tier == "quick"
    d = ("done",)
    return [J("c08_sink", d, preempt=0), J("c08_sink", d, preempt=1, k=1), J("c08_sink", d, preempt=2, k=1, rounds=1),
            J("c08_logger", d, preempt=1), J("c08_logger", d, preempt=2, weight=3), J("c08_logger", d, preempt=1, spurious=1),
            J("c08_three", d, preempt=1, weight=6), J("c08_many", d, preempt=0, k=4), J("c08_many", d, preempt=1, k=3)] + (
            [] if q else [J("c08_sink", d, preempt=2, k=1, weight=5), J("c08_logger", d, preempt=3, weight=5)])
spec("C08", "c08", c08,
     "sink and logger open/log/close histories, up to 3 threads, 0 to 2 (3) preemptions, optional spurious wake-ups",
     "longer histories, more threads or preemptions", CAP128)

def c09(tier):
    q = tier == "quick"
    return [J("c09_levels", ("enabled", "disabled", "done"), preempt=0, k=1 if q else 2), J("c09_levels", ("enabled", "disabled", "done"), preempt=1, k=1),
            J("c09_unlevelled", ("done",), preempt=0), J("c09_fatal", ("aborted",), preempt=1), J("c09_ndebug", ("done",), preempt=0)]
spec("C09", "c09", c09,
     "every level of the sink (symbolic) against every macro; 1 (2) statements; level changed between statements",
     "level changed by another thread concurrently with more than 1 preemption", CAP128)

def c10(tier):
    q = tier == "quick"; T = ("no buffer", "done")
    return [J("c10_sizes", ("done",), preempt=0, k=2 if q else 3, nsym=3 if q else 2, weight=2 if q else 6), J("c10_sweep", ("done",), preempt=0, max=60 if q else 200), J("c10_long", ("done",), preempt=0, harness="c07many", defines=(), instr=BIG, weight=2), J("c10_throw", T, preempt=0, k=1, nsym=2, faults=2)] + (
            [] if q else [J("c10_throw", T, preempt=0, k=2, nsym=2, faults=2, weight=6), J("c10_sizes", ("done",), preempt=1, k=1, nsym=2, weight=4)])
spec("C10", "c10", c10,
     "every buffer size from 1 to 60 (200) with 2 statements; 2 (3) statements of 3 sizes with the first 3 (2) buffers of any of 4 sizes, synced or left idle in between; allocate_buffer throwing up to twice; lines of 12 lengths to 131072 in buffers of 6 sizes to 200000",
     "larger buffers and records", CAP256)

def c11(tier):
    L = ("short write", "interrupted", "error", "done")
    return [J("c11_storage", L, preempt=0, weight=3), J("c11_logger", L, preempt=0), J("c11_big", ("done",), preempt=0, harness="c12big", instr=BIG, total=0x8000000)]
spec("C11", "c11", c11,
     "2 or 3 buffers, every write result (symbolic short count, EINTR, error) up to the harness fault budget; 128 MiB through the default buffers with a fixed sequence of short and interrupted writes",
     "longer fault sequences", CAP128,
     assumptions=["write(2) returns -1 or a count from 1 to the amount asked for"])

def c12(tier):
    q = tier == "quick"
    L = ("synced", "short write", "EAGAIN", "error", "done")
    return [J("c12_storage", ("synced", "done"), preempt=0, k=4 if q else 5, faults=0),
            J("c12_storage", L, preempt=0, k=4, weight=4),
            J("c12_storage", ("reopened", "done"), preempt=0, k=4, reopen=1, maxq=2, maxb=3, weight=4),
            J("c12_storage", L, preempt=0, k=2, faults=4, maxq=2, maxb=2), J("c12_storage", L, preempt=0, k=3, faults=2, maxq=2, maxb=2),
            J("c12_logger", ("done",), preempt=0), J("c12_big", ("over 4 GiB", "done"), preempt=0, harness="c12big", instr=BIG), J("c12_default", ("done",), preempt=0, harness="c12big", instr=BIG, total=0x8000000)] + ([] if q else [J("c12_storage", L, preempt=0, k=5, maxq=2, maxb=3, weight=8)])
spec("C12", "c12", c12,
     "queue depths 1 to 3, up to 4 buffers, histories of 4 (5) allocate/submit/flush/sync/reopen operations; completions in any order with short counts, EAGAIN/EINTR or errors; a file of more than 4 GiB and the default buffers with a fixed irregular sequence of completions",
     "longer histories; io_uring_submit failing; kernels that reorder a linked close", CAP128,
     assumptions=["the kernel performs submitted writes at the offsets given, in any order", "io_uring_submit succeeds"])

def c13(tier):
    q = tier == "quick"
    return [J("c13_storage", ("reopened", "reopen failed", "no path", "done"), preempt=0, k=4 if q else 5, weight=2),
            J("c13_make", ("failed", "io_uring", "posix", "reopened", "done"), preempt=0, faults=2 if q else 3, weight=2),
            J("c13_storage", ("reopened", "reopen failed", "no path", "done"), preempt=0, fd0=0, k=3), J("c13_fd", ("moved", "assigned", "done"), k=4 if q else 5),
            J("c13_command", ("reopened", "failed", "done"), preempt=0, harness="c13cmd", k=2 if q else 3),
            J("c13_command", ("reopened", "failed", "done"), preempt=1, harness="c13cmd", k=1), J("c13_command", ("reopened", "failed", "done"), preempt=2, harness="c13cmd", k=1, early=1)]
spec("C13", "c13", c13,
     "histories of 4 (5) write/flush/rename/reopen operations, every open/dup/ring/mmap/malloc call of make_fd_storage able to fail, 2 (3) failures",
     "longer histories", CAP128)

ASRT = CAP128 + ("-D_GLIBCXX_ASSERTIONS",)
def c14(tier):
    q = tier == "quick"
    L = ("gone", "idle", "malformed", "served", "threw", "two responses", "done")
    LF = L + ("not open", "slow reader", "failed call")
    return [J("c14_path", ("open", "too long"), preempt=0),
            J("c14_dispatch", L, preempt=0, k=4), J("c14_dispatch", LF, preempt=0, k=4, faults=1, weight=4), J("c14_dispatch", LF, preempt=0, k=3, faults=2, fd0=0, weight=2),
            J("c14_dispatch", L, preempt=0, k=5, conns=3, weight=3),
            J("c14_logger", ("answered", "done"), preempt=0, weight=3), J("c14_logger", ("answered", "done", "slow reader"), preempt=0, small=1, faults=1),
            J("c14_logger", ("answered", "done"), preempt=1, small=1), J("c14_logger", ("answered", "done"), preempt=0, small=1, k=2), J("c14_repath", ("changed", "same", "done"), preempt=0), J("c14_many", ("done",), preempt=0, harness="c14many", rounds=2, instr=BIG), J("c14_many", ("done",), preempt=0, harness="c14many", defines=ASRT + ("-DN_CONN=134", "-DN_OUT=4"), rounds=1, clients=130, instr=BIG)] + (
            [] if q else [J("c14_logger", ("answered", "done", "slow reader"), preempt=0, faults=1, weight=9), J("c14_logger", ("answered", "done"), preempt=1, weight=9), J("c14_dispatch", LF, preempt=0, k=4, faults=2, weight=9)])
spec("C14", "c14", c14,
     "up to 3 clients and 5 connect/send/close events in any order; datagrams of 0 to 520 symbolic bytes; up to 2 failing, interrupted or would-block calls among socket/bind/listen/poll/accept4/recvmsg/sendmsg/close; socket paths of 0 to 111 characters; with the whole logger, 1 or 2 requests and 0 or 1 preemptions, 2 changes of the path; 2 rounds of 20 and one of 130 clients at once in 3 orders",
     "longer event sequences, allocation failure, very long runs", ASRT,
     assumptions=["fnmatch(3) and regex(3) are uninterpreted functions of pattern and name", "a sequenced-packet socket sends whole datagrams or fails"])

def c15(tier):
    q = tier == "quick"
    L = ("status", "level set", "invalid request", "invalid pattern", "done")
    return [J("c15_history", L, preempt=0, k=2, weight=2), J("c15_history", L, preempt=0, simple=1, k=4, weight=4), J("c15_history", L, preempt=1, simple=1, k=1, weight=2),
            J("c15_counts", ("pending", "drops", "status", "done"), preempt=0), J("c15_drops", ("status", "drops", "done"), preempt=0, instr=BIG), J("c15_shutdown", L, preempt=0), J("c14_many", ("done",), preempt=0, harness="c14many", rounds=1, sinks=40, clients=6, instr=BIG), J("c14_many", ("done",), preempt=0, harness="c14many", defines=ASRT + ("-DN_CONN=6", "-DN_OUT=304"), rounds=1, sinks=300, clients=5, instr=BIG)] + (
            [] if q else [J("c15_history", L, preempt=0, k=3, weight=9), J("c15_history", L, preempt=1, simple=1, k=2, weight=5), J("c15_shutdown", L, preempt=1, weight=3)])
spec("C15", "c15", c15,
     "up to 3 sinks opened, renamed and closed by 4 operations, names from empty to beyond the longest a response holds, all pattern types, any match outcome per name, all 2^32 levels; queue use and drop counts after bursts on 2 sinks; requests during logger destruction; 40 sinks with 6 clients and 300 with 5 clients at once; 300 and 70000 drops twice",
     "more sinks, several requests in flight", ASRT,
     assumptions=["fnmatch(3) and regex(3) are uninterpreted functions of pattern and name"])

def c16(tier):
    q = tier == "quick"; d = ("done",)
    return [J("c16_" + e, d, preempt=0, weight=3) for e in ("ns", "us", "ms", "s", "rtc")] + [J("c16_any", d, preempt=0, weight=5), J("c16_tsc", d, k=2 if q else 3, weight=2 if q else 9), J("c16_hz", ("given", "not given")), J("c16_pairs", d, preempt=0, weight=2), J("c16_rates", d), J("c16_estimate", d, preempt=0),
            J("c16_fresh", ("synced", "done"), preempt=0, k=4 if q else 5, weight=2), J("c16_fresh", ("synced", "done"), preempt=1, k=2 if q else 3, weight=3)]
spec("C16", "c16", c16,
     "every nanosecond of 16 days between 0001 and 9999 (epoch, leap days, centuries, 32-bit limits), for clocks of nanosecond to second resolution, real-time clock and supplied timestamps; every time of a nanosecond clock with gmtime_r left open; histories of 2 (3) TSC readings on 4 frequencies, from boot on, across resynchronisations; 6 other frequencies with chosen readings; measuring 5 frequencies from 4 times with 3 sleeps too long; every TSC ratio numerator with 6 denominators and 6 crystal frequencies on 12 CPU models; pairs of times near to each other or mirrored at the epoch, on 14 days; histories of 4 (5) log, sync and clock steps on 2 sinks, 2 (3) with 1 preemption",
     "years beyond 0000-9999; gmtime_r itself (modelled); TSC frequencies that are not a power of two times 10^9 Hz other than 6 with chosen readings (the product is then rounded); measuring a frequency while the thread is interrupted between reading the two clocks", CAP128,
     assumptions=["the TSC is invariant and the wall clock is not stepped"])

def c17(tier):
    q = tier == "quick"
    L = ("assigned", "self-assigned", "closed", "registered again", "done")
    return [J("c17_history", L, preempt=0, k=3, weight=2), J("c17_history", L + ("destroyed", "get_sink"), preempt=0, k=3, sinks=3, weight=6),
            J("c17_history", L, preempt=0, k=2, loggers=2, weight=5), J("c17_history", L, preempt=1, k=2, weight=5), J("c17_history", L, preempt=1, k=1, sinks=3),
            J("c17_copies", ("copied", "done"), preempt=0, k=4, weight=2), J("c17_copies", ("copied", "done"), preempt=1, k=2, weight=2), J("c17_again", ("done",), preempt=0, rounds=2), J("c17_names", ("done",), preempt=0, harness="c17names"), J("c17_again", ("done",), preempt=0, loggers=2, before=2)] + (
            [] if q else [J("c17_history", L, preempt=0, k=4, weight=9), J("c17_history", L, preempt=0, k=2, loggers=2, sinks=3, weight=9), J("c17_history", L, preempt=2, k=1, weight=5)])
spec("C17", "c17", c17,
     "up to 3 sinks and 2 loggers; histories of 3 (4) operations out of log, close, register, rename, set level, copy, assign, self-assign, destroy, get_sink, sync; 2 with 1 preemption (1 with 2); names of 14 lengths to 1000 given in 5 ways",
     "longer histories, sinks shared between threads", CAP128)

def c18(tier):
    q = tier == "quick"
    d = ("done",)
    return [J("c18_pair", d, preempt=0), J("c18_pair", d, preempt=0, third=1, weight=2)] + [
            J("c18_pair", d, preempt=1, first=i, nops=6, weight=4) for i in range(6)] + ([] if q else [J("c18_pair", d, preempt=0, each=2, nops=6, weight=9), J("c18_pair", d, preempt=1, first=6, weight=9)] + [J("c18_pair", d, preempt=2, first=i, nops=6, weight=9) for i in (2, 3, 4)])
spec("C18", "c18", c18,
     "two threads (or two and the main thread logging) each calling 1 or 2 of get_sink, register_sink, set_log_level_style, set_default_log_level, set_command_path, set_level and copying sinks; 1 (2) preemptions for one call each",
     "more threads, calls or preemptions", CAP128)

def c19(tier):
    q = tier == "quick"
    return [J("c19_map", ("mapped", "file", "done"), preempt=0, pages=8 if q else 32), J("c19_map", ("mapped", "failed", "file", "done"), preempt=0, faults=3, pages=4 if q else 16),
            J("c19_length", ("unknown", "done")), J("c19_moves", ("done",), k=4 if q else 6), J("c19_sink", ("failed", "done"), preempt=1 if q else 2)]
spec("C19", "c19", c19,
     "1 to 8 (32) pages, anonymous or file-backed with offsets of 0 to 2 pages, from 0 and from 8 GiB, any of the mapping calls failing; all byte contents; every length to 2^40 that is not page-aligned; histories of 4 (6) moves; creation of a sink failing under a running logger",
     "munmap failing; other page sizes; mmap(MAP_FIXED) failing after the kernel removed the old mapping; the non-Linux shm_open variant", CAP128)

def c20(tier):
    q = tier == "quick"
    L = ("settled", "closed", "done")
    return [J("c20_history", L, preempt=0, k=3), J("c20_history", L, preempt=0, k=2 if q else 3, sinks=3, weight=2), J("c20_history", L, preempt=0, k=2, small=1),
            J("c20_history", L, preempt=1, k=2 if q else 3, weight=3), J("c20_history", ("settled", "done"), preempt=2, k=1), J("c20_two", ("settled", "done"), preempt=1 if q else 2, weight=3)]
spec("C20", "c20", c20,
     "up to 3 sinks, histories of 3 bursts of logging, closing or waiting; 2 with 1 preemption (3), 1 with 2; two logging threads with 1 (2) preemptions; after each the background thread runs alone until it does nothing but poll",
     "longer histories, more sinks or preemptions; real time", CAP128)

def c21(tier):
    q = tier == "quick"
    L = ("failed", "done"); B = ("thrown", "done")
    return [J("c21_format", L, preempt=0, k=2 if q else 3, weight=2), J("c21_format", L, preempt=1, k=1 if q else 2), J("c21_format", L, preempt=0, k=2, two=1, weight=2), J("c21_long", L, preempt=0),
            J("c21_backend", B, preempt=0, k=3), J("c21_backend", B, preempt=0, k=2, faults=2), J("c21_backend", B, preempt=1, k=1, weight=3)] + (
            [] if q else [J("c21_backend", B, preempt=0, k=3, faults=3, weight=5)])
spec("C21", "c21", c21,
     "1 or 2 sinks, 2 (3) statements of 3 shapes, any of them throwing one of 4 exception types before or after producing output, of 0 to 5000 bytes; 3 statements with up to 2 (3) of the back-end's calls throwing, buffer sizes 16 to 150",
     "exceptions not derived from std::exception; a back-end that throws forever", CAP256)

def c22(tier):
    q = tier == "quick"
    d = ("done",); L = ("elements", "empty", "done")
    return [J("c22_lists", L, preempt=0, n=3), J("c22_maps", L, preempt=0, n=3 if q else 4), J("c22_tuples", d, preempt=0, n=3), J("c22_nested", d, preempt=0, k=2, n=2, weight=2), J("c22_large", d, preempt=0, instr=BIG)] + (
            [] if q else [J("c22_nested", d, preempt=0, k=2, n=3, weight=4), J("c22_lists", L, preempt=2, n=2, weight=2)])
spec("C22", "c22", c22,
     "vector, list, deque, forward_list, set, multiset, array, map, multimap, pair, tuple and a user-defined iterable, 0 to 3 (4) elements with all byte values, logged by copy, move and const reference; nested containers, 2 statements; 5 kinds with 10 to 500 elements of which one is symbolic; queue 256 bytes",
     "other large containers; unordered containers (their iteration order is libstdc++'s)", CAP256)

def c23(tier):
    q = tier == "quick"
    L = ("changed", "done")
    return [J("c23_parse", ("name", "other"), n=8 if q else 16), J("c23_styles", ("level", "other")), J("c23_history", L, preempt=0, k=3 if q else 4, weight=3),
            J("c23_history", L, preempt=1, k=2, weight=3), J("c23_ctors", ("done",), preempt=0)]
spec("C23", "c23", c23,
     "all strings of 0 to 8 (16) bytes; all 2^32 level values; histories of 3 (4) statements, style changes and syncs on 2 sinks, 2 with 1 preemption; all four constructors",
     "longer strings (compared for equality with names of at most 7 characters)", CAP128)

def c24(tier):
    q = tier == "quick"
    return [J("c24_copy", ("truncated", "fits"), n=12 if q else 24), J("c24_default", ("set", "unset", "runtime directory", "temporary directory", "done"), preempt=0, n=4 if q else 8),
            J("c24_threads", ("runtime directory", "temporary directory", "done"), preempt=3 if q else 5), J("c24_many", ("done",), preempt=0, instr=BIG, paths=300 if q else 70000), J("c24_connect", ("connected", "too long", "failed", "done"), preempt=0), J("c24_listen", ("listening", "too long", "failed", "done"), preempt=0)]
spec("C24", "c24", c24,
     "source strings of 0 to 12 (24) symbolic bytes into fields of 1 to 10; directories of 0 to 4 (8) symbolic characters, set or not, writable, present or absent, changing between calls; 3 threads with 3 (5) preemptions; 300 (70000) loggers; socket paths of 13 lengths from 0 to 150 with symbolic bytes, socket() and connect() failing",
     "directories near PATH_MAX", CAP128)

def c25(tier):
    q = tier == "quick"
    return [J("c25_lines", ("help", "refused", "success"), n=3 if q else 4, weight=2 if q else 9), J("c25_texts", ("help", "refused", "success", "unreachable"), n=2 if q else 3, eintr=1 if q else 2),
            J("c25_long", ("refused", "success")), J("c25_replies", ("unreachable", "bad reply", "list", "success", "empty"), k=3, weight=3), J("c25_many", ("list",), eintr=0)] + (
            [] if q else [J("c25_replies", ("unreachable", "bad reply", "list", "success", "empty"), k=3, eintr=2, weight=9)])
spec("C25", "c25", c25,
     "command lines of every command, level and up to 3 (4) further arguments out of 13 options and texts of 2 symbolic bytes, empty, '-' or of maximal length; patterns up to 290 bytes; up to 3 responses of 7 kinds, valid or not, with symbolic names of 0 to 2 bytes, all 2^32 levels and frame ids; connect, send and receive failing; 1 (2) interruptions by signals; 7 to 40 sinks listed in 4 orders",
     "more responses; names that are not terminated (C15: the logger never sends them); getopt_long is a model, compared with glibc's on random command lines")
