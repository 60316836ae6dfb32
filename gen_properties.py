#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
A = "src/rsfile/rsfileio_abstract.py"; U = "src/rsfile/rsfileio_unix.py"; R = "src/rsfile/rsfile_registries.py"
S = "src/rsfile/rsfile_streams.py"; F = "src/rsfile/rsfile_factories.py"; T = "src/rsfile/rsfile_utilities.py"
W = "src/rsfile/rsfileio_windows.py"; B = "src/rsfile/rsbackend/unix_stdlib.py"; WC = "src/rsfile/rsbackend/windows_ctypes.py"
WU = "src/rsfile/rsbackend/_utilities.py"

def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

REG = ("per-file table of (descriptor, shared, start, end)", "locks this process believes it holds", R + " IntraProcessLockRegistryClass._lock_registry")

p("C01", "File locks exclude each other across handles, threads and processes",
  "Once lock_file() (or an open with default locking) has returned successfully on one stream, and until that lock is released, no other stream - in any thread of any process - obtains a lock on an overlapping byte range unless both locks are shared. A length of None or 0 reaches to infinity, and offsets relative to the current position or to the end of file designate the absolute bytes they denote at the time of the call.",
  ["schedules", "inputs", "histories"], "every interleaving of lock/unlock/open/close calls by any number of threads and processes, on any ranges, sharing modes and timeouts",
  "The locking tests start a handful of workers with real sleeps and a few fixed ranges; the intra-process table and the kernel locks are taken in two steps, so exclusion depends on interleavings those runs never choose.",
  [A, U, R], [("two-step acquisition: process table, then kernel range lock", A + " lock_file"), ("overlap test", R + " _try_locking_range"), ("kernel lock", U + " _inner_file_lock")],
  [REG], ["return of lock_file()/rsopen()", "kernel lock table"])

p("C02", "A held lock survives all unrelated activity on the same file",
  "A lock obtained through a stream stays enforced against every other process until that very stream unlocks that range, is closed, or its process ends. Nothing done to other rsfile streams on the same file in the same process - opening, closing, garbage-collecting, unlocking overlapping shared ranges, timing out on a lock attempt, failing to open - releases or weakens it.",
  ["schedules", "histories", "inputs", "fault_sequences"], "every sequence and interleaving of stream operations in the owning process, with kernel calls failing",
  "Kernel range locks vanish when any descriptor of the file is closed and are merged per process; tests check one nesting (open and close a second stream) out of all histories of several streams and locks.",
  [A, U, R], [("descriptors kept open while locks remain", U + " _purge_pending_related_file_descriptors / _inner_close_streams"), ("release of a closed stream's locks", A + " close"), ("unlock", U + " _inner_file_unlock")],
  [REG, ("pending descriptors", "descriptors of closed streams kept open to protect locks", R + " _lock_registry[uid][2]")], ["what a lock attempt from another process gets"])

p("C03", "Releasing a lock is complete and exact",
  "Unlocking, leaving the with-block of a lock (normally or through an exception), closing the stream (even if its flush or the release itself fails), or the end of the process, releases exactly the byte ranges concerned: other handles and processes can then lock them immediately, and no other range is released. A lock attempt that fails, times out or is interrupted leaves nothing locked.",
  ["schedules", "histories", "fault_sequences", "crash_points"], "every history of acquisitions and releases, every failing kernel call, every point of process death or interruption of a blocked call",
  "Tests release locks on the success path only; leaks appear after exceptions, failed or interrupted attempts, deaths and failing kernel calls.",
  [A, U, R, S], [("context manager returned by lock_file", A + " _lock_remover"), ("unlock_file", A + " unlock_file"), ("close releases remaining locks", A + " close"), ("roll-back of a failed attempt", A + " lock_file finally")],
  [REG], ["kernel lock table at quiescence", "probe locks with timeout=0"])

p("C04", "A blocked lock request is granted once the conflict is gone",
  "A blocking lock_file() or rsopen() (no timeout) returns successfully after every conflicting lock has been released, however it was released: unlock, with-block exit, stream close, process death, or another waiter giving up. No wake-up is ever lost, and transient kernel refusals (contention, deadlock suspicion, lock-table exhaustion) only delay it.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of waiters and releasers across threads and processes, under fair scheduling, once faults stop",
  "A lost wake-up needs the waiter to be parked at one precise moment relative to one kind of release; tests that lock in several threads release by one path and pass by luck of timing.",
  [A, R, U], [("condition wait and notification", R + " register_file_lock / _try_unlocking_range / remove_file_locks"), ("retry loop", A + " lock_file"), ("entry deletion guard", R + " try_deleting_unique_id_entry")],
  [REG, ("number of waiting threads", "prevents deletion of an entry being waited on", R + " _lock_registry[uid][3]")], ["completion of every lock call"])

p("C05", "Lock timeouts are honoured, whatever the clocks do",
  "A lock_file() with a timeout never gives up before that many seconds of real elapsed time, never later than one retry delay after it, and succeeds if the range becomes and stays free for at least one retry delay before the deadline; timeout=0 tries exactly once without waiting. The global enforced timeout bounds in the same way, with RuntimeError, lock calls that have no timeout of their own. Steps of the wall clock change none of this. Streams opened after set_rsfile_options() obey the options then set, get_rsfile_options() returns a copy of them, and unknown options raise ValueError and change nothing.",
  ["schedules", "inputs", "fault_sequences", "configurations"], "every timeout, retry delay, contention pattern (same process or another process) and clock step",
  "Tests check a few real sleeps on an idle machine with a well-behaved clock.",
  [A, R, F], [("deadline computation and spin", A + " lock_file.check_timeout"), ("options", R + " set_rsfile_options"), ("timeout passed by the opener", F + " rsopen")],
  [], ["elapsed simulated time and outcome of lock_file()/rsopen()"])

p("C06", "Locks are per-handle, exact-range and non-reentrant",
  "Locking bytes already locked through the same handle, in whatever sharing mode, raises RuntimeError at once; disjoint or merely adjacent ranges are independent; unlocking succeeds only for exactly a range locked through that handle and otherwise raises RuntimeError. A refused lock or unlock call changes nothing, and arguments of wrong types or values (negative lengths, timeouts or positions, unknown whence) are refused with ValueError or TypeError. Exclusive locks need a writable stream and shared locks a readable one; the default mode follows writability.",
  ["inputs", "histories", "schedules"], "every history of lock and unlock calls on several handles, with any mix of bounded and unbounded, adjacent, nested and far-away ranges",
  "Tests sample a dozen hand-picked ranges; the overlap arithmetic with open ends and the table clean-up must be right for all of them and after any history.",
  [A, R], [("overlap and ownership test", R + " _try_locking_range / _try_unlocking_range"), ("argument resolution", A + " lock_file / unlock_file / _convert_relative_offset_to_absolute")],
  [REG], ["outcome of every lock/unlock call against a reference model"])

p("C07", "Locks order the data: flush before release, fresh data after acquire",
  "Whatever was written through a buffered or text stream while it held a lock is in the file before that lock is released, by an explicit unlock, by leaving the lock's with-block or by close; and what is read after acquiring a lock is current file data, never stale read-ahead. Read-modify-write cycles done under an exclusive lock therefore never lose an update.",
  ["schedules", "histories", "configurations"], "every interleaving of lock-protected cycles by streams in any threads and processes, for every stream type and buffer size",
  "Existing lock tests read and write unbuffered or reopen the file each time; stale or unflushed buffers show only when two buffered streams alternate.",
  [S, A], [("buffer reset around lock calls", S + " _reset_buffers / lock_file / unlock_file"), ("context manager returned by lock_file", A + " _lock_remover"), ("close order", A + " close")],
  [], ["file content at each lock release", "data read after each lock acquisition"])

p("C08", "Whole-file helpers are atomic towards each other",
  "With their default locking, write_to_file(), append_to_file(), read_from_file() and default rsopen() sessions on one file behave, across threads and processes, as if executed one at a time: a reader gets a complete version (never a truncated or half-written file), each append lands exactly once and contiguously at the end, and a helper that fails to get its lock changes nothing. A file opened for erasing is truncated only after its lock was obtained.",
  ["schedules", "histories", "inputs", "fault_sequences"], "every interleaving of helper calls in threads and processes, any payload and buffer sizes, short writes, lock timeouts",
  "The helpers' test runs single-threaded; atomicity is a statement about interleavings.",
  [T, F, S, A], [("lock before truncation", F + " rsopen"), ("helpers", T + " read_from_file / write_to_file / append_to_file"), ("flush before unlock on close", A + " close")],
  [], ["history of helper calls checked for linearizability", "final file content"])

p("C09", "A thread-safe stream executes each call atomically",
  "Calls made by several threads on one stream opened with thread_safe=True (the default) - read, write, readline, iteration, seek, tell, truncate, flush, size, close - take effect one at a time, as in some sequential order consistent with real time: no data is lost, duplicated or interleaved, from the very first call on. Threads that hold the stream's mutex attribute can group several calls into one atomic step.",
  ["schedules", "histories"], "every interleaving, down to single source lines, of calls by any number of threads on raw, buffered and text streams",
  "The only multi-threaded stream test writes chunks in one pattern; races need a switch inside one call and are invisible to single-threaded tests.",
  [S, F], [("mutex-protected forwarding", S + " RSThreadSafeWrapper"), ("wrapping of the outermost stream", F + " rsopen")],
  [("mutex", "one lock per stream", S + " RSThreadSafeWrapper.mutex")], ["history of calls checked for linearizability against a file-plus-position model"])

p("C10", "Streams and locks behave across fork()",
  "After a fork the child owns none of its parent's file locks, whatever its inherited memory says: it can lock what is free, is refused what the parent holds, and closing or unlocking inherited streams in the child affects neither the parent's locks nor its streams. A thread-safe stream opened inheritable and shared by fork stays atomic, call by call and under its mutex, between parent and child.",
  ["schedules", "histories"], "every interleaving of lock, read and write calls in parent and child, forks at any operation boundary with any locks held",
  "One test forks writers before any lock is taken; table resets and cross-process mutexes matter in the histories it skips.",
  [R, S, F], [("fork detection", R + " _check_forking"), ("interprocess mutex choice", F + " rsopen is_interprocess / " + S + " RSThreadSafeWrapper")],
  [("recorded pid", "detects a fork", R + " _original_pid")], ["outcome of lock calls in parent and child", "file content"])

p("C11", "File descriptors are closed exactly once, when due, and only if owned",
  "Every descriptor a stream opens is closed exactly once: at close or collection of the stream if no lock of the process remains on that file, otherwise as soon as the last such lock is gone and a lock is released or a stream of that file is closed. Failed opens leak nothing, a failing close or flush still releases the descriptor, descriptors wrapped with closefd=False (or by someone else's code) are never closed, and a closed stream never touches its former descriptor number again.",
  ["histories", "fault_sequences", "schedules", "configurations"], "every history of opens, wraps, locks, closes and collections, with any kernel call failing, and any descriptor number including 0",
  "Tests look at a few close paths with all kernel calls succeeding.",
  [A, U, R, F], [("close", A + " close"), ("deferred closing", U + " _inner_close_streams / _purge_pending_related_file_descriptors"), ("failure clean-up", F + " rsopen except / " + U + " _inner_create_streams")],
  [("pending descriptors", "see C02", R)], ["descriptor table of the simulated process"])

p("C12", "Synced data survives crashes",
  "When sync() returns, when write_to_file() or append_to_file() with sync=True returns, or when a raw write or a flush returns on a stream opened with the S flag, every byte written through that stream before the call - including what Python-level buffers held - is on stable storage and survives any later crash (the content of the file, not its directory entry, which applications sync themselves). With metadata=True file times survive too, and with full_flush=True on a platform that offers it the device cache is flushed as well; a variant of synchronisation that the file does not support is replaced by a stronger or the next best one, not reported.",
  ["crash_points", "histories", "fault_sequences", "configurations"], "a machine crash at any kernel call, any subset of unsynced writes lost or torn, any buffer sizes and stream types, platforms with and without fdatasync or full flush",
  "Tests only time sync calls; no test can pull the plug.",
  [A, U, S, T], [("sync at each stream layer", S + " sync"), ("choice of kernel call", U + " _inner_sync"), ("O_SYNC", U + " _inner_create_streams"), ("helpers", T)],
  [], ["durable image of the simulated disk after a crash"])

p("C13", "Input/output failures are reported, never swallowed",
  "If the kernel fails an operation on which a call depends - write, flush, truncate, sync, seek, open, lock, close - so that its effect is not achieved, the call raises (or, for raw streams, returns a smaller count); a call that returns normally has had its full effect. In particular sync() never returns normally when the device reported that data could not be written, and a failed buffered write loses or duplicates nothing that a later successful flush should deliver.",
  ["fault_sequences", "inputs", "histories"], "every kernel call failing with any errno at any point of any operation sequence",
  "No existing test makes a kernel call fail.",
  [A, U, S], [("error conversion", U + " _unix_error_converter"), ("sync fall-backs", U + " _inner_sync"), ("write", A + " write"), ("close", A + " close")],
  [], ["outcome of each call against injected faults", "file content"])

p("C14", "A stream delivers exactly the bytes it was given",
  "For any sequence of reads, writes, seeks, truncations, flushes and size or position queries on one stream, raw, buffered or text, results and final file content are those of a plain byte array with a cursor, and agree with the standard library's own streams: no byte lost, duplicated, reordered or misplaced. This holds however the kernel splits transfers, with data queued in buffers counted by size(), for all buffer sizes and accepted buffer objects, and when a stream is collected instead of being closed.",
  ["inputs", "fault_sequences", "configurations"], "every operation sequence, buffer size, and every pattern of short reads and short writes",
  "The stdlib suite runs fixed sequences on a kernel that never splits a transfer on regular files.",
  [A, U, S, F], [("raw read/readall/readinto/write", A), ("flush before size", S + " size"), ("buffer sizing", F + " rsopen")],
  [], ["results and content against a byte-array model and against stdlib streams on the same simulated kernel"])

p("C15", "Append mode always writes at the current end of file",
  "Every flush of a stream in append mode adds its bytes at the end the file has at that moment, whatever the stream's position and whoever else extended or truncated the file meanwhile; earlier bytes are never overwritten. Concurrent appenders, in threads or processes, locked or not, lose no record, and each record that reaches the kernel in a single transfer stays contiguous.",
  ["schedules", "inputs", "histories"], "every interleaving of appending streams, seeks, reads, truncations, short writes, all ways to open for append",
  "Append tests use one stream at a time.",
  [U, A, F, T], [("O_APPEND", U + " _inner_create_streams"), ("initial position", A + " __init__"), ("mode parsing", F + " parse_standard_args / parse_advanced_args")],
  [], ["file content after each kernel write"])

p("C16", "Truncation and extension are exact",
  "truncate(n) leaves a file of exactly n bytes whose first min(n, old size) bytes are unchanged and whose added bytes read as zeros, returns n, keeps the stream position, accounts for data still buffered, and defaults n to the current position. A truncate that fails reports it and never reports a size the file does not have.",
  ["inputs", "fault_sequences", "histories"], "every size, position, stream type and buffer state, with failing, partial or unsupported kernel extension",
  "Tests truncate a couple of small files on a kernel where extension always works.",
  [A, U, S], [("truncate", A + " truncate"), ("reduce/extend", U + " _inner_reduce / _inner_extend")],
  [], ["file content, size and position after each truncate"])

p("C17", "Opening is atomic and a failed opening is harmless",
  "Among concurrent exclusive creations of one path exactly one succeeds; must-exist modes never create; default modes create with the requested permissions if and only if the file is missing, and only erase modes empty an existing file. An opening that fails - wrong arguments, missing or existing file, directory, lock refused or timed out, kernel error up to the erasure that the mode asks for - leaves existing content and existing locks intact.",
  ["schedules", "inputs", "fault_sequences"], "every mode, every interleaving of openers of one path, every kernel failure during opening",
  "Mode tests run one opening at a time, with nothing failing in the middle.",
  [F, U, A], [("flag computation", U + " _inner_create_streams"), ("mode parsing", F + " parse_standard_args / parse_advanced_args"), ("lock, then truncate", F + " rsopen")],
  [], ["outcome of each opening against a file-system model"])

p("C18", "Only streams opened inheritable leak into executed programs",
  "A program executed at any moment, from any thread, inherits the descriptor of a stream if and only if that stream was opened with the I flag; plain streams, and descriptors kept open internally after close, are never inherited. The state of descriptors supplied for wrapping is left untouched.",
  ["schedules", "histories"], "an exec in another thread at any instant of any open, lock or close",
  "The inheritance test spawns children when no call is in progress.",
  [U, A], [("set_inheritable after open", U + " _inner_create_streams")], [], ["descriptor table seen by a program executed by the simulator"])

p("C19", "Non-blocking and non-seekable streams keep the io contract",
  "On pipes, fifos, devices and non-blocking descriptors, read() and readinto() return the available bytes, None when none are ready and empty bytes only at end of stream (line-wise and text reads serve the same bytes in the same order); raw writes return the count accepted or None; every byte accepted is delivered exactly once and in order. No call fails for lack of data alone, buffered writers report exactly what they could not accept, and locking or truncation at opening is skipped silently on non-seekable streams.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of producer and consumer, pipe capacity, partial transfer and would-block pattern, all stream layers",
  "Tests use one real pipe with a few fixed transfers.",
  [A, U, F], [("would-block translation", U + " _inner_read / _inner_write"), ("readinto/readall", A), ("seekable test", A + " __init__ / " + F + " rsopen")],
  [], ["byte sequences at both ends of simulated pipes"])

p("C20", "The Windows backend keeps the same promises",
  "On a Windows kernel - per-handle mandatory range locks, no native append, no sparse zero-fill, explicit end-of-file setting - streams obey the same reference model: locks exclude, release and time out alike, content, position, truncation, zero-filling, append and opening modes match, native errors become OSError with the right errno, and handles are closed exactly once.",
  ["schedules", "inputs", "histories", "fault_sequences"], "every operation sequence and interleaving on the Windows code path, including large offsets and failing kernel calls",
  "The Windows path is not executed at all by the tests on this platform.",
  [W, WC, WU, A], [("Win32 backend", W), ("ctypes layer", WC), ("range splitting", WU)], [], ["results against the reference model on a simulated Win32 kernel"])

p("C23", "What a stream tells of itself and of its file is true",
  "unique_id() and uid() identify the open file: equal for all streams on the same file, whatever its names become, never equal for two files existing at once, including files of different devices. times(), size(), fileno(), handle(), readable(), writable(), seekable(), isatty(), name, mode, origin, closefd, encoding and closed report the actual file and state of the call, through renames, replacements and other processes' changes; a failing kernel query becomes OSError, and a closed stream answers with ValueError and stays closed. As a context manager a stream enters as itself, and leaving closes it.",
  ["histories", "schedules", "fault_sequences"], "every history of renames, links, removals, recreations, modifications and failing queries around open streams, all stream kinds",
  "Tests query fresh files whose names never change, with no failing query.",
  [S, A, U, F], [("forwarding", S + " unique_id/times/size"), ("queries", A + " unique_id/times/readable/writable"), ("identity", U + " _inner_uid / _inner_times")],
  [], ["each answer against the simulated kernel's inode at the time of the call"])

p("C24", "Code written for the io module works unchanged, with the same results",
  "After monkey_patch_io_module(), open() and the classes FileIO, BufferedReader, BufferedWriter, BufferedRandom and TextIOWrapper take the arguments of the originals (FileIO has no opener), and every call of the io interface on them - opening in each standard mode, wrapping and stacking, read, readline, iteration, readinto, peek, write, seek, tell, truncate, flush, detach, attributes, with-blocks, calls on closed streams, wrong arguments - has the outcome of the original: same results, same error types and errno, same file contents and permissions, nothing locked; also when the kernel splits the transfers.",
  ["histories", "inputs", "fault_sequences"], "every sequence of io calls, stack of streams, argument and file content, and every way the kernel splits transfers",
  "The adapted stdlib tests check fixed sequences; equality with the standard library must hold for every history of calls.",
  [T, F, S, A], [("patching, default arguments", T + " monkey_patch_io_module / BUILTIN_OPEN_FUNC_REPLACEMENT / RSFileIOWrapper"), ("standard modes", F + " parse_standard_args"), ("io interface", A), ("upper streams", S)],
  [], ["each result, error and file against the interpreter's own _pyio on the same simulated kernel"])

p("C21", "Open-mode strings and arguments mean what the table says",
  "Each standard and advanced mode string maps to the documented combination of read, write, append, creation, truncation and text flags, and every malformed mode or argument combination is rejected with ValueError or TypeError before anything is opened.",
  ["inputs"], "all mode strings and argument combinations", "Tests compare a sample with the stdlib; this is a pure function of its input.",
  [F], [("parsers", F + " parse_standard_args / parse_advanced_args")])

p("C22", "Windows number and time conversions are exact inverses",
  "Splitting an integer into two machine words and joining it back, switching signedness, and converting between Windows file times and timestamps are mutual inverses over their whole domains.",
  ["inputs"], "all integers and timestamps in range", "Tests sample values; pure arithmetic without schedule or fault.",
  [WU], [("conversions", WU)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
