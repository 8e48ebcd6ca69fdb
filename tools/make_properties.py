#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they can be edited comfortably)."""
import json, os

ABS = "src/rsfile/rsfileio_abstract.py"
UNX = "src/rsfile/rsfileio_unix.py"
WIN = "src/rsfile/rsfileio_windows.py"
STR = "src/rsfile/rsfile_streams.py"
FAC = "src/rsfile/rsfile_factories.py"
REG = "src/rsfile/rsfile_registries.py"
UTI = "src/rsfile/rsfile_utilities.py"
BKU = "src/rsfile/rsbackend/_utilities.py"
STD = "src/rsfile/rsbackend/unix_stdlib.py"
DEF = "src/rsfile/rsfile_definitions.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe),
            hook_needed=None,
        ),
    ))


prop("C01", "Binary streams behave like the standard library's on any operation history",
     """For any sequence of operations (reads of every kind, writes of any bytes-like object, seek, tell, truncate, flush,
     iteration, attribute queries, close) on a regular file opened in any standard binary mode with any buffering, an
     rsfile stream returns the same results, fails with the same kind of error, reports the same positions and leaves the
     same bytes on disk as a standard io.open() stream given the same sequence. This does not depend on whether locking
     or thread-safety is enabled, nor on the equivalent advanced mode string being used instead of the standard one.""",
     ["histories", "inputs", "configurations"],
     "all operation sequences x initial contents x binary modes x buffer sizes x thread_safe x locking",
     """The existing tests replay fixed short scripts from the stdlib suite; interactions between buffered position,
     append mode, truncation beyond/below the position and read/write switches depend on the history.""",
     [ABS, UNX, STR, FAC, STD],
     [("raw read/write/seek/truncate", ABS), ("rsopen stream chain", FAC), ("buffer forwarding mixins", STR)],
     observe=["return values", "exceptions", "tell()", "bytes of the file read through an independent descriptor"])

prop("C02", "Text streams behave like the standard library's on any operation history",
     """For any sequence of text operations (read, readline, iteration, write, writelines, seek to a previously told
     cookie, tell, truncate, flush, reconfigure, close) with any encoding, error handler, newline mode and buffering, an
     rsfile text stream returns the same strings, fails with the same kind of error and leaves the same bytes on disk as
     a standard io.open() text stream given the same sequence. Line-buffered streams make each completed line visible to
     other openers of the file when the write returns.""",
     ["histories", "inputs", "configurations"],
     "all text operation sequences x encodings x newline modes x error handlers x buffering",
     """Tests use a few literal strings; decoding state across chunk boundaries, newline translation and cookies depend on
     content, buffer size and history.""",
     [STR, FAC, ABS],
     [("RSTextIOWrapper", STR), ("rsopen text layer and line buffering", FAC)],
     observe=["return values", "file bytes"])

prop("C03", "Every mode string is either rejected or has exactly its documented effects",
     """Opening a path with any mode string either fails with ValueError leaving the filesystem untouched (unknown,
     repeated, mixed-case or contradictory flags), or does exactly what the flags document: must-create / must-exist /
     create-if-needed, truncation only when requested, and readability, writability, append, binary or text nature and
     mode attribute of the resulting stream. A standard mode and its documented advanced equivalent are
     indistinguishable; new files get the requested permissions filtered by the umask and existing files keep theirs;
     descriptors are inheritable only with 'I' and opened synchronized only with 'S'.""",
     ["inputs", "configurations"],
     "all mode strings x file state (absent, empty, non-empty, symlink, dangling symlink, directory) x permissions x umask",
     """Tests try a dozen hand-picked modes; the full space of flag combinations, orders, deprecated flags and pre-existing
     file states is only reachable by enumeration/generation.""",
     [FAC, ABS, UNX, DEF],
     [("parse_standard_args / parse_advanced_args", FAC), ("open flags computation", UNX), ("mode property", ABS)],
     observe=["exception type", "stat() of the file", "readable()/writable()/mode", "fcntl F_GETFL / F_GETFD"])

prop("C04", "Wrapping an existing descriptor never alters it and honours closefd",
     """Wrapping any open descriptor (through fileno, handle, an integer name, or an opener; descriptor 0 included) never
     truncates, moves, re-flags or locks anything beyond what the arguments request, and I/O starts at the descriptor's
     current position (at end of file in append mode). The stream reports the descriptor through fileno()/handle()/name
     with the matching origin, closing it closes the descriptor exactly once if closefd is true and leaves it open and
     usable otherwise, and an opener is called once with the original name and integer open flags like with io.open.""",
     ["inputs", "histories", "configurations"],
     "descriptor kinds/positions/flags x wrapping arguments x modes x operation sequences x closefd",
     """Tests wrap a couple of freshly opened files; low descriptor numbers, non-zero positions, truncating modes, failed
     constructions and several wrappers of one descriptor are not sampled.""",
     [FAC, ABS, UNX],
     [("fileno/handle/opener handling", FAC), ("target determination and closefd", ABS)],
     observe=["fstat / lseek / F_GETFL of the descriptor before and after", "stream attributes"])

prop("C05", "Locks taken through different handles of one process follow the range-lock model",
     """Within a process, for any sequence of lock_file/unlock_file/close on any number of streams (same file through
     paths, hard links, symlinks or duplicated descriptors, or different files), a non-blocking lock request succeeds
     exactly when no other handle holds an overlapping lock with either of the two exclusive; requesting a range
     overlapping one already held by the same handle raises RuntimeError, and so does unlocking a range the handle does
     not hold exactly while other locks exist on that file. Ranges are interpreted from offset, whence and length as
     documented (length None or 0 is infinite, exclusive needs writability, shared needs readability, the default follows
     writability) and a failed request changes nothing.""",
     ["histories", "inputs"],
     "all sequences of lock/unlock/close over several handles and files, with arbitrary ranges, whences and modes",
     """Tests check a few fixed pairs of ranges; conflicts depend on arbitrary overlaps, on the order of releases and on
     which handle holds what.""",
     [REG, ABS, UNX],
     [("intra-process lock registry", REG), ("lock_file/unlock_file", ABS)],
     state=[("registry", "per-file list of (handle, shared, start, end) and pending descriptors", REG)],
     observe=["return / exception of each call"])

prop("C06", "Other processes are excluded from exactly the ranges that are locked",
     """After any sequence of opens, locks, unlocks and closes by one or several processes, every byte range locked
     through a still-open stream is seen as locked (shared or exclusive) by every other process, and every other byte is
     seen as free. In particular unlocking or closing one stream never loses a lock held through another stream of the
     same file in the same process, and nothing stays locked once all locks are released.""",
     ["histories", "schedules"],
     "all multi-process, multi-handle histories of open/lock/unlock/close on shared files",
     """Kernel record locks vanish when any descriptor of the file is closed or any overlapping range is unlocked; tests
     check one fixed scenario of that kind.""",
     [REG, UNX, ABS],
     [("deferred closing of descriptors", UNX), ("kernel unlock of released ranges", UNX), ("close releasing locks", ABS)],
     state=[("pending descriptors", "descriptors kept open while the process has locks on the file", REG)],
     observe=["kernel lock table, probed by another process for every byte boundary"])

prop("C07", "A blocked lock request is granted after release and never before",
     """A lock_file() call that blocks (no timeout) on a range held elsewhere, by another thread's stream or another
     process, stays blocked as long as a conflicting lock is held and completes successfully once every conflicting
     lock is released, whatever the way it is released (unlock, context exit, stream close, destruction of the stream or
     death of the process holding it). When several threads or processes wait, exclusive holders never overlap and none
     waits forever.""",
     ["schedules", "histories"],
     "numbers of waiters, holders, shared/exclusive mix, ranges, kinds of release and interleavings",
     """Tests run one or two fixed contention scenarios; lost wake-ups and premature grants depend on the way locks are
     released and on interleavings.""",
     [REG, ABS, UNX],
     [("condition variable per file", REG), ("lock_file loops", ABS)],
     observe=["entry/exit journal of critical sections", "completion of waiters"])

prop("C08", "Lock timeouts are honoured and leave no trace",
     """A lock_file() call with a timeout on a range that stays locked elsewhere raises LockingException, not before the
     timeout has elapsed nor long after it, while one whose conflict disappears in time succeeds; with timeout 0 it never
     waits. With the enforced timeout option set, a call without timeout raises RuntimeError instead of waiting forever;
     unknown options are rejected without changing any option. After any failed attempt the lock state of the
     process and of the file is what it was before the attempt.""",
     ["inputs", "schedules", "configurations"],
     "timeouts, spin delays, enforced timeout values, holders in the same or another process, release instants",
     "Tests use a couple of fixed timeouts with one holder; residues after failures are not examined.",
     [ABS, REG],
     [("check_timeout loop", ABS), ("set_rsfile_options / get_rsfile_options", REG)],
     observe=["elapsed time", "exception type", "kernel lock table and later lock attempts"])

prop("C09", "Locks last exactly as long as their scope, and written data precedes the unlock",
     """A lock taken by a with-statement on lock_file() is held during the whole block and released when the block ends,
     normally or by any exception, with exactly the locked range, even if the position or the file size changed
     inside; other locks of the stream remain. Closing or destroying a stream releases all its locks, for any layer
     (unbuffered, buffered, text, thread-safe) and process. Data written through the stream is visible in the file
     before its lock is released by context exit, unlock_file or close.""",
     ["histories", "inputs", "fault_sequences"],
     "layers x ranges given by any whence x operations inside the block x ways of leaving it",
     "Tests only leave blocks normally and never look at the file at the instant the lock becomes available.",
     [ABS, STR],
     [("context manager returned by lock_file", ABS), ("buffer flushing before (un)locking", STR)],
     observe=["kernel lock table from another process", "file bytes at the instant of the unlock call"])

prop("C10", "Opening with locking never touches a file it failed to lock",
     """Opening a path with locking enabled locks the whole file (exclusive if writable, shared otherwise) before any
     truncation, and keeps it until the lock is released or the stream closed. If the lock cannot be obtained in time
     the open fails and the existing content, size and other holders' locks are unchanged and no descriptor is leaked;
     with locking disabled no lock is taken and existing locks are no obstacle.""",
     ["histories", "schedules", "inputs"],
     "modes x holders (same process, other process, shared/exclusive, partial ranges) x timeouts x file contents",
     "Tests never check the victim file's content when a truncating open loses the lock race.",
     [FAC, ABS],
     [("lock before truncate in rsopen", FAC)],
     observe=["file content", "kernel lock table", "/proc/self/fd"])

prop("C11", "No descriptor is leaked or closed twice",
     """Whatever the sequence of successful and failing opens, wraps, locks, detaches and closes, once all streams are
     closed the process has exactly the descriptors it had before, and a stream's descriptor is closed only once and
     only by its owner (never with closefd false). While streams remain, the only extra descriptors are those of
     closed streams on files where the process still holds locks, and they disappear when those locks are released.""",
     ["histories", "fault_sequences", "inputs"],
     "all open/lock/close histories including failing opens (directory, missing file, bad encoding, lock conflict)",
     "Tests count descriptors in a couple of scenarios; leaks appear on error paths and lock-dependent deferred closes.",
     [UNX, ABS, FAC, REG],
     [("deferred closing", UNX), ("cleanup on failing rsopen", FAC), ("close", ABS)],
     observe=["/proc/self/fd", "recorded close() calls"])

prop("C12", "Forked children do not inherit locks and do not disturb the parent's",
     """After a fork, the child holds none of its parent's locks: its lock requests on inherited or newly opened streams
     conflict with the parent's locks and, once the parent releases, succeed. Whatever the child does with inherited
     streams (lock attempts, unlock of its own locks, close, exit), the parent's locks stay in force and its streams stay
     usable, and the same holds for locks the child takes with respect to the parent.""",
     ["histories", "schedules"],
     "lock states at fork time x child and parent operation sequences",
     "Tests cover a single fixed fork scenario.",
     [REG, UNX],
     [("registry reset on pid change", REG)],
     observe=["kernel lock table", "results of lock attempts in child and parent"])

prop("C13", "Thread-safe streams serialise every call of every thread",
     """On a stream opened with thread_safe enabled (any layer), no two method calls, iteration steps or lock-context
     exits from different threads ever execute inside the stream at the same time, from the very first call on, and all
     of them hold the stream's mutex (the one supplied by the user if any). Consequently concurrent writes are never torn
     or lost, each byte is delivered to exactly one concurrent reader, and holding the mutex makes a multi-call
     operation atomic; the wrapper otherwise behaves exactly like the wrapped stream.""",
     ["schedules", "programs"],
     "thread programs over all public methods, layers and supplied mutexes",
     "Tests start a few writer threads and rely on luck; they cannot show which calls escape the mutex.",
     [STR, FAC],
     [("RSThreadSafeWrapper", STR), ("mutex selection", FAC)],
     observe=["mutex ownership during every system call", "file content after concurrent runs"])

prop("C14", "Inheritable streams are atomic across forked processes",
     """For a thread-safe stream opened as inheritable, forked processes sharing it never execute calls in it
     simultaneously: concurrent unbuffered or flushed writes of all processes are all present, untorn, and blocks done
     while holding the stream's mutex (the one provided, else an inter-process one) are atomic across processes.""",
     ["schedules", "programs"],
     "numbers of processes, message sizes, layers, mutexes",
     "One existing scenario; tearing depends on schedules and sizes.",
     [STR, FAC],
     [("inter-process mutex choice", FAC)],
     observe=["file content after concurrent runs", "mutex semantics across fork"])

prop("C15", "truncate() sets exactly the requested size on every layer",
     """On any writable regular-file stream (unbuffered, buffered, text, thread-safe), truncate(size) with or without the
     zero_fill argument flushes pending data, makes the file exactly size bytes long (default: the current position),
     preserves the surviving prefix, fills any extension with zeros when zero_fill is true, returns the new size and
     does not move the stream position. Negative sizes, non-writable and closed streams are refused without changing
     the file.""",
     ["inputs", "histories"],
     "layers x contents x pending buffered data x positions x sizes (0 .. beyond 4 GiB, sparse)",
     "Tests truncate a few small files; offsets around 2^31/2^32, pending buffers and positions matter.",
     [ABS, UNX, STR],
     [("truncate", ABS), ("_inner_reduce / _inner_extend", UNX)],
     observe=["file bytes and size via an independent descriptor", "tell()"])

prop("C16", "Extension methods report the truth and do not disturb the stream",
     """On any layer, size() returns the exact current length of the file including data still buffered, times() the
     file's access and modification times, and unique_id()/fileno()/handle()/origin/name describe the underlying
     file. Calling these, or sync(), lock_file() and unlock_file(), at any point of any operation history changes neither
     the results of later operations, nor the final content, nor the position.""",
     ["histories", "configurations"],
     "operation histories with extension calls inserted at arbitrary points, for all layers",
     "Tests call each method once on a fresh stream; buffered read-ahead or pending writes are what breaks them.",
     [STR, ABS, UNX],
     [("forwarding mixins", STR), ("_inner_size/_inner_times", UNX)],
     observe=["metamorphic comparison of two runs", "os.stat()"])

prop("C17", "Two streams have the same unique_id exactly when they are on the same file",
     """For any sequence of file creations, hard and symbolic links, renames, deletions, re-creations and openings, two
     live streams return equal unique_id values if and only if they refer to the same file, whatever path they
     were opened from, and the value of a stream never changes during its life.""",
     ["histories"],
     "all sequences of namespace operations and opens",
     "Tests compare one pair of streams.",
     [UNX, ABS],
     [("unique_id", UNX)],
     observe=["unique_id() values against a namespace model"])

prop("C18", "File utilities round-trip any content",
     """write_to_file followed by read_from_file returns exactly the written bytes, or the written text for any compatible
     encoding/newline setting, append_to_file adds exactly its data at the end, for any data, size, buffering, locking and
     sync setting. Their must_create / must_not_create options, missing files and encoding errors behave as documented,
     a call refused because of these options, a missing file or a lock leaving existing files unchanged, and no lock or
     descriptor survives the call.""",
     ["inputs", "histories"],
     "data, encodings, newlines, bufferings, flags, sequences of utility calls",
     "Tests use two short literals.",
     [UTI, FAC],
     [("read_from_file/write_to_file/append_to_file", UTI)],
     observe=["file bytes against a model", "/proc/self/fd", "kernel lock table"])

prop("C19", "Concurrent locked utilities never lose, tear or mix data",
     """With locking enabled, concurrent write_to_file, append_to_file and read_from_file calls on one file from any number
     of threads and processes behave as if executed one at a time: readers only ever see complete states, all appends
     are present contiguously, and the final content is explained by some order of the calls.""",
     ["schedules", "histories"],
     "mixes of threads, processes, payload sizes and buffer sizes",
     "No existing test runs utilities concurrently.",
     [UTI, FAC, REG, UNX],
     [("whole-file lock at open before truncation", FAC), ("flush before release", ABS)],
     observe=["values read by readers", "final content"])

prop("C20", "I/O errors and short writes are reported, never silently losing data",
     """Under any pattern of short writes, short reads, interrupted or failing system calls (ENOSPC, EIO, EAGAIN, ...),
     every write or flush that returns normally has delivered its data completely and in order, every failure reaches
     the caller as an OSError, and a later successful flush delivers what was still buffered exactly once. close()
     reports a failed flush and yet always closes the stream, its descriptor and its locks.""",
     ["fault_sequences", "histories"],
     "operation histories x fault schedules injected at each system call",
     "Tests never inject faults below the raw layer.",
     [ABS, UNX, STR],
     [("raw write/read result handling", ABS), ("close with try/finally", ABS)],
     observe=["recorded system calls", "file bytes", "exceptions", "/proc/self/fd"])

prop("C21", "sync() and synchronized streams push all written data to the device",
     """When sync() returns on any layer, every byte written before it has been handed to the kernel and a file
     synchronization request completed successfully after the last write; with metadata=False a data-only request is
     enough, and if no synchronization could be done, or one reported a failure to write data, an OSError is raised. Streams opened with 'S' are opened
     synchronously and sync=True utilities return only after such a request.""",
     ["histories", "fault_sequences", "configurations"],
     "operation histories, sync options, failing synchronization calls, layers",
     "Tests call sync() without observing the system calls or their order.",
     [UNX, STR, UTI],
     [("_inner_sync", UNX), ("sync of buffered layers", STR)],
     observe=["order of recorded write/fsync/fdatasync calls"])

prop("C22", "Pipes and non-blocking descriptors behave like with the standard library",
     """Wrapping pipes, FIFOs and terminals yields non-seekable streams for which initial locking and truncation are
     ignored, seek/truncate/lock requests fail with an error, and reads and writes deliver all data in order with
     None / partial counts / BlockingIOError when a non-blocking descriptor is empty or full, exactly like the standard
     library's streams. No data is lost or duplicated in any interleaving of writes, reads and would-block conditions.""",
     ["histories", "schedules", "inputs"],
     "operation sequences on both ends, pipe fill levels, blocking flags, layers",
     "Tests cover a couple of fixed pipe scripts.",
     [ABS, UNX, FAC],
     [("_seekable", ABS), ("EAGAIN handling", UNX)],
     observe=["return values", "data at the other end"])

prop("C23", "Windows conversion helpers are exact inverses over their whole domain",
     """For all integers in range, splitting into low/high words and recombining is the identity, signed/unsigned
     reinterpretations are mutually inverse, timestamp/FILETIME conversions round-trip within one 100 ns tick plus float
     precision and are monotonic with the documented epoch, and Windows error codes map to the documented errno values
     with EINVAL as default.""",
     ["inputs"],
     "all 32/64-bit integers, word sizes and timestamps",
     "Tests use a handful of values.",
     [BKU],
     [("conversion helpers", BKU)],
     observe=["return values"])

prop("C24", "The Windows backend maps stream operations to the right Win32 calls",
     """Over any correct implementation of the Win32 file API, the Windows raw stream opens files with the access,
     creation, inheritance and attribute options its arguments document, and any sequence of reads, writes (append
     included), seeks, truncations, size/times/unique_id queries, locks and unlocks gives the results and file content
     of the portable semantics, including offsets beyond 4 GiB. Win32 failures surface as OSError with the mapped errno,
     and close releases locks and the native handle exactly once.""",
     ["histories", "inputs", "configurations"],
     "raw stream operation sequences and open arguments over a simulated Win32 API",
     "The Windows code is never executed on this platform by the existing tests.",
     [WIN, BKU, "src/rsfile/rsbackend/windows_pywin32.py"],
     [("RSFileIO for windows", WIN)],
     observe=["simulated Win32 file objects, locks and handles"])

prop("C25", "Drop-in replacements of open() and io classes keep the standard behaviour",
     """After patching an io module (or the builtin open), opening any file with standard arguments through the
     replacement open, FileIO or buffered/text classes behaves like the original ones for any arguments and
     operation sequence, including which arguments are accepted, what gets created or truncated, and no locking being
     done.""",
     ["inputs", "histories", "configurations"],
     "signatures, modes, descriptor wrapping and operation sequences through the patched names",
     "Tests run the stdlib suite's fixed scripts only.",
     [UTI, STR],
     [("RSFileIOWrapper", UTI), ("monkey_patch_*", UTI)],
     observe=["return values", "file bytes", "kernel lock table"])

prop("C26", "Arbitrary arguments give a result or a clean error, never corruption",
     """Whatever the types and values of the arguments given to rsopen and to the stream methods, in any state of the
     stream (open, closed, wrong mode), each call either succeeds or raises ValueError, TypeError, OSError, OverflowError or, for lock misuse,
     RuntimeError (also LookupError for codecs, AttributeError for objects which are no streams, MemoryError for sizes beyond
     the memory); a stream method that fails because of its arguments leaves the file content, position, lock state and open
     descriptors unchanged, does not hang, and leaves the stream usable. Every operation on a closed stream raises ValueError,
     except close, the properties which are constants of the stream class, and requests of nothing.""",
     ["inputs", "histories"],
     "argument values of all types and magnitudes for all entry points, in all stream states",
     "Tests enumerate a few bad values by hand.",
     [FAC, ABS, STR],
     [("argument validation", FAC), ("checks in raw methods", ABS)],
     observe=["exception types", "state before/after"])

prop("C27", "Append streams always write at the end of the file",
     """Whatever seeks, reads, truncations or other writers' modifications happen in between, every chunk an append-mode
     stream pushes to the file lands, contiguous and in order, at the end the file has at that moment; bytes
     already present are never overwritten, and the position after a flush is the end of that data.""",
     ["histories", "schedules"],
     "interleavings of append streams (several handles/processes) with other modifications, seeks and flushes",
     "Tests append once or twice through one stream.",
     [UNX, FAC, ABS],
     [("O_APPEND", UNX), ("initial seek to end", ABS)],
     observe=["file bytes against a model"])

prop("C28", "Abandoned streams and killed processes lose only unflushed data",
     """If a process is killed at any point, the file contains everything flushed before and all its locks vanish so that
     waiters proceed; if a stream is merely abandoned without close(), its destruction flushes buffered data,
     releases its locks and frees its descriptor. A stream whose creation failed never raises on destruction nor closes a
     descriptor it does not own, and leaks none.""",
     ["crash_points", "histories"],
     "crash points inside operation histories; layers; ways to abandon a stream; causes of failed constructions",
     "Tests never kill writers at arbitrary points.",
     [ABS, STR, UNX],
     [("finalizer through close", ABS), ("flush", STR)],
     observe=["file bytes after SIGKILL", "kernel lock table", "/proc/self/fd"])

prop("C29", "Data read under a lock is up to date, and no update made under locks is lost",
     """After a stream of any layer obtained a lock (by lock_file(), rsopen() or a with-statement), what it reads in the
     locked range is exactly what the previous lock holders wrote, whatever it had read in advance before (except one
     character following a lone carriage return just read in universal newlines mode), its position being unchanged; its own writes are in the file when it unlocks. Therefore read-modify-write sequences executed
     under locks by any number of streams, threads and processes never lose an update.""",
     ["histories", "schedules", "configurations"],
     "layers, buffer sizes, encodings, previous unlocked reads, modifications by other parties, ranges; schedules of concurrent parties",
     "Tests never fill read-ahead buffers before locking, and their concurrent writers only append.",
     [STR, ABS, UNX],
     [("dropping of buffers before locking", STR), ("lock_file", ABS)],
     observe=["data read under lock", "sums of concurrent counters"])

prop("C30", "Signals interrupt blocked operations cleanly, or not at all",
     """When a signal arrives while an operation is blocked (lock requests of any API with or without timeout, reads and
     writes on pipes, openings of FIFOs, waits for the mutex of a thread-safe stream) and its handler returns, the
     operation goes on and has its normal result, and timeouts still elapse on time. If the handler raises, that very
     exception reaches the caller, and nothing remains of the operation: same kernel locks, no descriptor or
     bookkeeping left, no data lost or duplicated, streams and locks usable, other waiting threads served.""",
     ["schedules", "fault_sequences", "histories"],
     "blocking operations x layers x obstacles x numbers of signals x exception types raised by handlers",
     "Tests never deliver signals to blocked operations.",
     [ABS, REG, UNX, FAC],
     [("retry loop of lock_file", ABS), ("waits for registered locks", REG), ("retries of interrupted calls", UNX)],
     observe=["exception identity", "kernel lock table", "/proc/self/fd", "data received through pipes"])

prop("C31", "Any file name denotes the same file as for the operating system",
     """For any name (bytes or text with any character, undecodable bytes, path-like objects; relative, absolute,
     redundant, too long or empty paths; symbolic links, loops, directories, missing entries), rsopen(), RSFileIO and
     the utility functions open, create, or refuse exactly the file that io.open() would, with the same kind of error
     and errno, leaving the same directory entries and giving the stream the name it was given, with an opener too.""",
     ["inputs", "configurations"],
     "names x existing directory entries x types of the argument x opening APIs and modes",
     "Tests use a few plain names.",
     [FAC, ABS, UNX, UTI],
     [("path conversion", FAC), ("opening of raw streams", UNX)],
     observe=["result or error", "directory tree", "device and inode of the opened file"])

prop("C32", "Standard library modules work on rsfile streams as on standard ones",
     """Streams returned by rsopen() (any standard mode, layer, locking and thread-safety options) can be handed over to
     the modules of the standard library working on file objects (serialisation, compression, archives, text tools,
     wrappers and codecs, memory mapping, processes, sockets, redirections of standard streams): each use gives the same
     result or kind of error, the same position and the same file content as with a stream of io.open().""",
     ["histories", "inputs", "configurations"],
     "modules x generated data x modes x layers x sequences of uses of one stream",
     "Tests use streams directly, never through other modules.",
     [STR, ABS, FAC],
     [("buffered and text streams", STR), ("thread-safe wrapper", STR), ("raw streams", ABS)],
     observe=["results of the modules", "file bytes"])

prop("C33", "Global options change all or nothing, and govern every later lock request",
     """set_rsfile_options() either applies all the given options or, when some name is unknown, raises ValueError and
     changes nothing; get_rsfile_options() returns an independent copy of the current values. For any stream created
     afterwards, requests without timeout raise RuntimeError once enforced_locking_timeout_value has elapsed (never
     earlier, and soon after given default_spinlock_delay), and those with their own timeout raise LockingException
     according to that one only, whoever holds the lock and whatever the API.""",
     ["histories", "configurations"],
     "histories of option changes x lock APIs x layers x holders x timeouts",
     "Tests set each option once.",
     [REG, ABS, UTI],
     [("set_rsfile_options", REG), ("check_timeout of lock_file", ABS)],
     state=[("_default_rsfile_options", "current options", REG)],
     observe=["returned dictionaries", "exception types and durations"])


prop("C34", "After a flush, other users of the descriptor continue where the stream is",
     """When flush() (or sync(), seek(), detach(), close(), a lock or unlock) returns on a stream of any layer, all data
     written through it is in the file and the position of its descriptor is the one reported by tell(). Hence duplicated descriptors,
     os functions, subprocesses inheriting the stream and other rsfile streams sharing the same open file description
     can take turns on it: each sees all the previous data, continues exactly where the previous one stopped, and no byte
     is lost, repeated or misplaced. Closing a stream with closefd=False, or detaching it, leaves the descriptor usable.""",
     ["histories", "configurations"],
     "sequences of turns of streams (layers, modes, buffer sizes), os functions and subprocesses over one open file description",
     "Tests use one stream per descriptor, and flush() before reopening files by path.",
     [STR, ABS, FAC],
     [("flush and seek of buffered streams", STR), ("raw positions", ABS), ("wrapping of descriptors", FAC)],
     observe=["file bytes", "offset of the open file description", "results of reads"])


prop("C35", "Long-running use accumulates nothing",
     """Repeating any history of successful and failing opens, locks (granted, refused, timed out, waited for), unlocks, I/O, utility calls,
     closes, detachments and abandonments any number of times, on the same files, on ever new ones or on a stream kept open,
     leaves the process as after the first times: no memory, registry entry, descriptor, thread or wait is retained per repetition
     once locks are released and streams closed.""",
     ["histories"],
     "histories repeated up to 1200 times on the same files, new inodes, or one long-lived stream",
     "Tests never repeat the same use, nor look at what remains in the process.",
     [REG, ABS, UNX, STR],
     [("registry entries", REG), ("deferred descriptors", UNX), ("construction and destruction of streams", STR)],
     state=[("_lock_registry", "entries per file", REG)],
     observe=["allocated memory blocks", "open descriptors", "threads"])

prop("C36", "Streams may be destroyed at any moment of other streams' operations",
     """A stream may be destroyed by the garbage collector, or closed by a finalizer, at any moment, in the middle of any operation
     of the same thread on another stream, of the same file or not. Both take effect as if done one after the other: the
     interrupted operation has its normal result, the destroyed stream's buffered data is written, its descriptor closed, its
     locks released (the requests waiting for them proceed), and the locks of other streams remain known to the process and
     to the kernel.""",
     ["inputs", "schedules", "fault points"],
     "operations, layers, sets of destroyed streams with their locks and buffered data, instants inside the operation",
     "When the garbage collector runs depends on the allocations of the whole program; tests can't choose that instant.",
     [REG, ABS, UNX, STR],
     [("reentrancy of the lock registry", REG), ("close() from a finalizer", ABS), ("deferred descriptors", UNX)],
     state=[("_lock_registry", "entries modified by a nested release", REG)],
     observe=["results", "kernel lock table", "later lock attempts in the process", "descriptors", "file contents"])


prop("C37", "Buffers hold back at most their size, and spare system calls",
     """At any time all the data accepted by a stream has reached the file, except at most the last bytes, no more than the size of its
     buffer (plus one chunk for text layers); nothing is held back by raw streams, nor by line-buffered streams once a line is
     complete, nor after flush(). Reading takes at most one buffer in advance from the descriptor. In exchange, sequential reads
     and writes in small pieces need no more read and write calls of the system than the number of buffers they fill, whatever
     the options of the stream (thread-safe, locking, append, wrapped descriptor).""",
     ["inputs", "histories"],
     "layers, buffer sizes, opening options, sequences of pieces of all sizes, positions",
     "Results are the same with a buffer which is too big, too small or useless; what is lost by a crash or what others see isn't.",
     [FAC, STR, ABS],
     [("choice of the buffer size", FAC), ("buffered and text streams, thread-safe wrapper", STR), ("raw reads and writes", ABS)],
     observe=["content of the file after each call", "offset of the descriptor", "read and write calls counted by the kernel"])

prop("C38", "Operations interrupted by signal handlers leave everything consistent",
     """An operation interrupted at any moment by an exception of a signal handler (KeyboardInterrupt, timeouts...) lets it out, and
     leaves the package usable: no internal mutex remains held, the locks known by the kernel are those before or after the operation,
     the requests of other streams of the process are granted or refused accordingly (a range just being locked may stay refused to them
     until the interrupted stream is closed), the stream is where it was and can be used and closed, contents are those before or after
     the operation, and closing the stream leaves neither descriptor nor lock. (Interrupted closings only guarantee the locks and data of
     the other streams.)""",
     ["inputs", "schedules", "fault points"],
     "operations, layers, locks and buffered data of the streams, instants inside the operation",
     "A signal comes at any instant; those between two related updates, like registry and kernel locks, last microseconds.",
     [REG, ABS, UNX, STR, FAC],
     [("registration then locking", ABS), ("mutexes", REG), ("thread-safe wrapper", STR), ("closing of half-opened streams", FAC)],
     state=[("_lock_registry", "records without kernel lock, or the reverse", REG)],
     observe=["exception", "kernel lock table", "lock attempts of other streams and threads", "descriptors", "file contents", "later operations"])

prop("C39", "Operations of several threads on streams of the same file are atomic",
     """When threads of a process operate at the same time on different streams of the same files (locking, unlocking, opening,
     closing, destroying, reading, writing, using the file utilities), the results, the locks known by the kernel and by the process,
     the contents and the open descriptors are those of the same operations executed one after the other; a request may only be
     refused because of a lock which another operation really had for a while. A blocked request is granted when a thread releases
     what it was waiting for, at whatever moment of that request the release happens.""",
     ["inputs", "schedules"],
     "pairs of operations, layers, locks of these and other streams, of another process, instant of the preemption",
     "Threads switch anywhere; windows of a few instructions are never met by tests with real threads.",
     [REG, ABS, UNX],
     [("registry and its mutex", REG), ("unlock and close keep registry and kernel in step", ABS), ("deferred descriptors", UNX)],
     state=[("_lock_registry", "records, deferred descriptors, waiters", REG)],
     observe=["results", "kernel lock table", "lock attempts in the process", "descriptors", "file contents", "blocked requests"])


def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=True) + "\n")
    print(len(P))


main()
