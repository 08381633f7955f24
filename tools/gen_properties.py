#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [],
                    "hook_needed": hook}})

p("C01", "A scan is an exact, reproducible function of the directory tree",
  "For any directory tree, a successful single-threaded scan writes exactly the index the v1 format prescribes: every directory, regular file and symlink once, directories parent-first in component order and names in byte order, names and link targets escaped, the owner-executable flag, the size, one digest per block, and a footer that is the digest of all lines between the header and the footer. "
  "The bytes do not depend on the order in which the operating system lists directories, on whether it reports entry types while listing, or on how reads are split or interrupted. "
  "Directories given to one scan with root prefix are merged into one tree, and if two of them have files of the same name the outcome is at least the same every time; special files (sockets, pipes, devices) are skipped. A scan that is given no directory to put at the root is an error, not an empty index, and no directory given to it is silently left out.",
  ["inputs", "schedules", "configurations"],
  "All trees (any byte in names, nesting, sizes around block boundaries, symlinks, special files, several roots), all hash types, all directory-listing orders, missing d_type, all splits of reads into short or interrupted reads.",
  "The tests scan two fixed directories of plain-text names through one kernel, so one listing order, always-full reads, d_type always present.",
  ["src/v1/scan.rs", "src/v1/writer.rs", "src/v1/hash.rs", "FORMAT.v1.rst"],
  [("sorting of files and reverse-sorted push of subdirectories", "src/v1/scan.rs scan"),
   ("fallback to metadata when the listing has no type", "src/v1/scan.rs scan"),
   ("per-block hashing through take+copy", "src/v1/hash.rs Hash::hash_file"),
   ("escaping", "src/v1/writer.rs Name"), ("running digest of emitted lines", "src/v1/writer.rs HashWriter")],
  observe=["bytes written to the output of v1::scan"])

p("C02", "The index is the same for every thread count and every schedule",
  "Scanning with any number of hashing threads writes byte for byte the index the single-threaded scan of the same tree writes. "
  "This holds for every interleaving of the scanning thread and the workers, every completion order and stall of workers, every queue size, and when several scans run at once or one after another in one process.",
  ["schedules", "inputs", "configurations"],
  "All trees, thread counts, queue sizes and interleavings of the worker pool at system-call, futex and allocation granularity, including stalled workers and a second concurrent scan.",
  "The threaded tests hash a handful of tiny files on 4 real threads; which interleaving runs is up to the kernel and is practically always the same one.",
  ["src/v1/threaded_writer.rs", "src/v1/mod.rs", "src/v1/scan.rs"],
  [("FIFO queue of pending entries, only the head is written", "src/v1/threaded_writer.rs poll_queue/poll_item"),
   ("NotReady head is pushed back to the front", "src/v1/threaded_writer.rs poll_item"),
   ("drain before the footer", "src/v1/threaded_writer.rs wait_queue/get_hash"),
   ("fresh hasher per file job", "src/v1/threaded_writer.rs add_file")],
  state=[{"name": "queue", "meaning": "entries accepted but not yet written, in output order", "where": "ThreadedWriter::queue"}],
  observe=["bytes written to the output of v1::scan"])

p("C03", "No file-system error is ever swallowed by a scan",
  "If opening or listing a directory, finding an entry's type, opening, inspecting or reading a file, or reading a symlink fails during a scan, the scan returns an error that carries that operating-system error, whatever the thread count and schedule. "
  "It never reports success with entries or data missing, and what it wrote until then is a prefix of the correct index without a footer. A later scan in the same process is not affected.",
  ["fault_sequences", "schedules", "inputs"],
  "Every file-system operation of every node of every tree failing with any errno, at any occurrence (for instance the n-th read of a file or the n-th directory entry), alone or combined, sequentially or in worker threads.",
  "No test makes any file-system operation fail.",
  ["src/v1/scan.rs", "src/v1/writer.rs", "src/v1/threaded_writer.rs", "src/v1/hash.rs"],
  [("error propagation", "src/v1/scan.rs, src/v1/writer.rs"),
   ("worker errors carried by the future and re-raised in order", "src/v1/threaded_writer.rs poll_item")],
  observe=["result of v1::scan", "bytes written before it"])

p("C04", "Output failures are reported and leave only a prefix of the index",
  "If the output of a scan fails or stops accepting bytes at any byte position, the scan returns a write error carrying that failure, nothing is written after it, and what the output accepted is a prefix of the correct index. "
  "Short and interrupted writes are invisible: the index, including its footer, comes out unchanged.",
  ["fault_sequences", "inputs", "schedules"],
  "Every byte position of the output at which it returns an error, accepts zero bytes, accepts fewer bytes than offered or is interrupted, including inside the header and the footer, for every tree, thread count and schedule.",
  "All tests write to an in-memory vector that cannot fail or write short.",
  ["src/v1/writer.rs", "src/v1/threaded_writer.rs", "src/v1/mod.rs"],
  [("digest is updated by the accepted bytes only", "src/v1/writer.rs HashWriter::write"),
   ("write errors are mapped to the write-error variant", "src/v1/writer.rs, src/v1/threaded_writer.rs")],
  observe=["result of v1::scan", "bytes accepted by the output"])

p("C05", "Progress reporting never changes a scan's result",
  "Turning progress output on changes neither the index bytes nor the result of a scan, whatever the clock does and whether or not standard error accepts output. "
  "When standard error works, the final progress line states the true numbers of directories, files and symlinks and the first eight digits of the footer; without progress output nothing is written there.",
  ["configurations", "schedules", "fault_sequences"],
  "All trees, thread counts and schedules; clocks that stall, creep or jump; standard error that fails, writes short, is interrupted or closed.",
  "No test enables progress; the time-dependent branch needs a scan that lasts over 100 ms.",
  ["src/v1/progress.rs", "src/v1/mod.rs", "src/v1/writer.rs"],
  [("progress decorator forwards every call", "src/v1/progress.rs"),
   ("errors on the progress stream are ignored", "src/v1/progress.rs check_print/done"),
   ("footer digest is computed without consuming the running digest", "src/v1/writer.rs get_hash")],
  observe=["bytes written by v1::scan", "standard error"])

p("C06", "A scan always ends and leaves no thread or descriptor behind",
  "Under every schedule and after any failure, a scan returns within a number of steps bounded by the size of the tree: it never deadlocks, spins or panics. "
  "Once it has returned, whether with success or an error, all threads it started finish by themselves and every file descriptor it opened is closed.",
  ["schedules", "fault_sequences", "inputs"],
  "All interleavings and stalls of workers, all failing operations and outputs, all thread counts and queue sizes.",
  "Tests only see that a fault-free scan of a few files returns; leaked threads and descriptors are invisible to them.",
  ["src/v1/threaded_writer.rs", "src/v1/scan.rs"],
  [("pool is closed when the writer is dropped", "src/v1/threaded_writer.rs ThreadedWriter (CpuPool)"),
   ("descriptors owned by reference-counted directories and file objects", "src/v1/scan.rs, src/v1/writer.rs")],
  observe=["termination", "threads and descriptors after v1::scan"])

p("C07", "Work in flight is bounded by the queue, not by the tree",
  "With hashing threads, the scan never starts on an entry that is further ahead of the last written entry than the configured queue size (by default sixteen per thread), however long one file stalls. "
  "The number of simultaneously open file descriptors is bounded by tree depth, queue size and thread count, not by the number of files or directories.",
  ["schedules", "configurations", "inputs"],
  "Trees much larger than the queue, any queue size and thread count, schedules in which any worker or file stalls arbitrarily long.",
  "No test sets a queue size, stalls a file or has more entries than the default queue.",
  ["src/v1/threaded_writer.rs", "src/v1/scan.rs", "src/config.rs"],
  [("blocking on the head when the queue is full", "src/v1/threaded_writer.rs poll_queue"),
   ("depth-first traversal", "src/v1/scan.rs scan")],
  state=[{"name": "queue_limit", "meaning": "maximum number of queued entries", "where": "ThreadedWriter::queue_limit"}],
  observe=["distance between files being opened and lines written", "open descriptors"])

p("C08", "Entries swapped during a scan never leak outside content or mix versions",
  "If other processes replace, delete, create or re-type entries of the tree (for instance a file or directory by a symlink pointing outside) at any moment of a scan, the index contains no name or content from outside the scanned directories. "
  "Every file entry describes exactly one version the file had (flag, size and digests together), every untouched entry is present unchanged, or the scan returns an error.",
  ["schedules", "fault_sequences", "inputs"],
  "Any sequence of atomic replacements, deletions, creations and symlink swaps placed between any two system calls of the scan, with and without worker threads.",
  "No test changes the tree while it is scanned.",
  ["src/v1/scan.rs", "src/v1/writer.rs", "src/v1/threaded_writer.rs"],
  [("directory-relative opens that do not follow symlinks", "src/v1/scan.rs (openat Dir)"),
   ("metadata taken from the opened file, not from the path", "src/v1/writer.rs add_file, src/v1/threaded_writer.rs add_file")],
  observe=["bytes written by v1::scan"])

p("C09", "A recorded size always equals the number of bytes its digests cover",
  "If a file is truncated, extended or rewritten in place while it is being scanned, or the file system reports a size it does not deliver, the file's entry either has digests over exactly as many bytes as its recorded size, in ceil(size/block size) blocks, or the scan returns an error. "
  "The scan never invents digests for bytes it could not read, and does work and uses memory in proportion to the bytes read, not to the size reported.",
  ["schedules", "fault_sequences", "inputs"],
  "Any in-place change placed between the inspection of a file and any of its reads; any wrong reported size up to 2^62.",
  "No test changes a file while it is scanned, and a sparse or lying file is never scanned.",
  ["src/v1/writer.rs", "src/v1/threaded_writer.rs", "src/v1/hash.rs"],
  [("block loop driven by the inspected size", "src/v1/writer.rs add_file, src/v1/threaded_writer.rs add_file")],
  observe=["file lines of the index against the bytes the scan actually read"])

p("C10", "Parsing recovers exactly what was written, however reads are split",
  "Parsing any valid index yields its header and exactly its entries in order (type, unescaped path, flag, size, digests, link target), then ends cleanly and stays ended. "
  "The result does not depend on how the reader splits, buffers or interrupts the reads, nor on whether the data comes in one byte or all at once, nor on whether the iteration is taken up by a new iterator in between; and the reader that the parser gives back can be rewound and parsed again with the same result.",
  ["inputs", "schedules"],
  "All trees and names (any byte), all hash types and block sizes, all fragmentations of the input down to one byte and interrupted reads at any position.",
  "The parser tests feed one in-memory slice through a standard buffer: one fragmentation, no interruption, a few names.",
  ["src/v1/parser.rs"],
  [("line accumulation", "src/v1/parser.rs read_line"), ("unescaping", "src/v1/parser.rs unescape_hex"),
   ("end detection by footer and end of input", "src/v1/parser.rs EntryIterator::parse_entry")],
  observe=["items of Parser::iter"])

p("C11", "A torn index is never taken for a complete one",
  "If an index is cut at any byte before its end (a crashed or interrupted writer), parsing it yields only entries of the original in order, then an error, and never ends cleanly, and extracting its hash fails. "
  "An index followed by further bytes is likewise reported as an error by the parser.",
  ["crash_points", "inputs"],
  "Every cut position of every index (all hash types, trees and names), read with any fragmentation, by iteration, by seeking and through the merging reader.",
  "Tests cut one index at one position (a footer without newline) and only look at the first item.",
  ["src/v1/parser.rs", "src/read.rs", "src/v1/merge.rs"],
  [("every line must end in a newline, the file must end after the footer", "src/v1/parser.rs"),
   ("footer shape check", "src/read.rs get_hash")],
  observe=["items of Parser::iter and MergedSignatures::iter", "get_hash"])

p("C12", "Damaged index data never causes a panic, a hang or runaway memory",
  "Whatever bytes an index contains (flipped, lost, duplicated, reordered or arbitrary data), creating a parser and iterating, seeking to entries, merging several indexes and extracting the hash all end after a bounded number of items without panicking. "
  "Memory use stays proportional to the data, whatever sizes, block sizes or counts the data claims.",
  ["inputs", "fault_sequences", "histories"],
  "All corruptions of stored indexes (bit flips, torn and swapped blocks, duplicated lines, extreme numbers) and all histories of calls on them.",
  "Tests cover a few hand-written malformed lines one at a time; none iterates past an error or uses extreme numbers.",
  ["src/v1/parser.rs", "src/v1/merge.rs", "src/read.rs"],
  [("row parsing returns errors", "src/v1/parser.rs Entry::parse, parse_hashes, Header::parse"),
   ("ordering of entry kinds", "src/v1/parser.rs EntryKind::cmp")],
  observe=["panics, number of items and allocations"])

p("C13", "A read error while parsing is reported and never turns into false entries",
  "If the reader fails at any byte position, the parser or iterator reports that error instead of ending cleanly. "
  "Whatever is called afterwards, including after the reader has recovered, every entry returned is an entry of the index at a later position than the last one returned: nothing is fabricated from a partial line, repeated or reordered.",
  ["fault_sequences", "histories", "inputs"],
  "All positions, kinds and repetitions of read errors, under all fragmentations and all histories of iterating and seeking calls before and after the error.",
  "No test uses a reader that fails.",
  ["src/v1/parser.rs"],
  [("line buffer kept across calls", "src/v1/parser.rs EntryIterator::current_row"),
   ("end-of-index state", "src/v1/parser.rs EntryIterator::exhausted")],
  observe=["items of Parser::iter / advance"])

p("C14", "Seeking in an index behaves like a search in the ordered entry list",
  "For any history of next and advance calls on a parsed index, by one iterator or several in turn, each call behaves as on the ordered list of entries with a cursor: next returns the entry at the cursor, advance skips smaller entries and returns the wanted one if present, otherwise nothing, leaving the cursor at the first larger entry. "
  "A malformed line (the first line of the file included) is reported exactly once, with its true line number, and does not disturb the entries around it.",
  ["histories", "inputs", "schedules"],
  "All indexes, all sequences of next and advance calls with present, absent, earlier, later and repeated targets, under all fragmentations.",
  "Tests run four fixed short histories.",
  ["src/v1/parser.rs"],
  [("pushed-back line", "src/v1/parser.rs EntryIterator::advance"), ("ordering of entry kinds", "src/v1/parser.rs EntryKind::cmp")],
  observe=["items of Parser::iter / advance", "line numbers in errors"])

p("C15", "Merging indexes groups equal entries in order and isolates failing inputs",
  "For any set of indexes and any history of next and advance calls, by one iterator or several in turn, the merging reader behaves as on the ordered lists: next returns the entries of all inputs that equal the smallest remaining one; advance returns the matching entries of all inputs and skips smaller ones; every row is in the order of the inputs. "
  "A read error or truncation in one input is returned exactly once with that input's key, at the latest by the first advance call that has to read past it, and neither hides nor disturbs entries of the others, and inputs with different hash types or block sizes, or that can not be opened, are refused.",
  ["histories", "inputs", "fault_sequences"],
  "All sets of indexes, all call histories, failures and fragmentation of any input at any position.",
  "Tests merge two fixed indexes with one fixed call sequence and no failing input.",
  ["src/v1/merge.rs", "src/v1/parser.rs"],
  [("minimum selection over peeked heads", "src/v1/merge.rs MergedEntriesIterator::next"),
   ("peeked head against pushed-back row", "src/v1/merge.rs PeekableEntryIterator::advance")],
  observe=["items of MergedSignatures::iter / advance"])

p("C16", "File verification answers yes exactly for the indexed content",
  "Hashing a stream gives its length and exactly the digests the index format prescribes for it, and checking a stream against the digests of an index entry answers yes exactly if the stream is the indexed content, including when it is shorter, longer, empty or a multiple of the block size. "
  "Short and interrupted reads change nothing; a read error is returned as an error or as no, never as yes.",
  ["inputs", "fault_sequences", "schedules"],
  "All contents, block sizes and hash types, all single changes of content, all fragmentations, interruptions and read errors at any position.",
  "Tests use one 4-byte and one 7-byte in-memory slice with always-full reads.",
  ["src/v1/parser.rs", "src/v1/hash.rs"],
  [("block loop and trailing-byte probe", "src/v1/parser.rs Hashes::_hash_file, _check_file")],
  observe=["results of Hashes::hash_file and Hashes::check_file"])

p("C17", "The extracted index hash is the footer, whatever the reader does",
  "Extracting the hash of a complete index returns the bytes of its footer line regardless of how the reader splits or interrupts its reads. "
  "If the reader or its positioning fails the error is returned, and no hash is ever returned that is not the index's footer, nor one of data that does not start as an index.",
  ["inputs", "schedules", "fault_sequences"],
  "All indexes and hash types, all fragmentations and interruptions, failures of any read or seek.",
  "The single test reads one in-memory slice.",
  ["src/read.rs"],
  [("header signature read and seek from the end", "src/read.rs get_hash")],
  observe=["result of get_hash"])

p("C18", "The emitter writes the canonical index or reports the failure",
  "Emitting the entries of any index, with any hash type and block size, through any output that accepts bytes piecemeal or interrupts writes produces exactly that index, footer and final newline included. "
  "If the output fails at any byte, the emitting call in progress returns that error and the output holds a prefix of the index.",
  ["inputs", "fault_sequences"],
  "All trees, hash types and block sizes; outputs that fail, stop, write short or are interrupted at any byte.",
  "One unit test emits five entries with one hash type to a vector.",
  ["src/v1/emitter.rs", "src/v1/writer.rs"],
  [("digest over accepted bytes", "src/v1/emitter.rs HashWriter"), ("footer", "src/v1/emitter.rs Emitter::finish")],
  observe=["bytes accepted by the output of Emitter"])

p("C19", "The command exits with zero only if the whole index was written",
  "The index command exits with status 0 only if the complete, correct index has reached the output file or standard output. Whenever something it needs fails (a missing root, unreadable input, a full disk, a failing output or broken pipe, at any byte, the last flush included) it exits non-zero and says why on standard error; when nothing fails it exits 0, whatever the output file held before. "
  "This holds for every thread count, hash type and progress setting.",
  ["fault_sequences", "schedules", "configurations"],
  "Every failing system call on input and output including the last flush, all option combinations and thread schedules.",
  "The command has no tests at all.",
  ["src/bin/index.rs", "src/v1/mod.rs"],
  [("result of the scan mapped to the exit status", "src/bin/index.rs run"), ("buffered output file", "src/bin/index.rs run")],
  observe=["exit status, output file, standard output and standard error of the index command"])

p("C20", "A killed or failed index command never leaves a file that passes for an index",
  "If the index command is killed or fails at any moment, what its output file then holds is either the complete correct index, exactly what it held before, or something that both the parser and the hash extraction reject; in particular it is never a mixture that passes for an index. "
  "Running the command again afterwards over the left-over file produces the complete index.",
  ["crash_points", "schedules", "configurations"],
  "Every system call of the command as the kill point, all trees, thread schedules, option combinations and pre-existing contents of the output file.",
  "No test runs the command, let alone kills it.",
  ["src/bin/index.rs", "src/v1/parser.rs", "src/read.rs"],
  [("truncating creation of the output file", "src/bin/index.rs run"), ("footer is written last", "src/v1/writer.rs done, src/v1/threaded_writer.rs done")],
  observe=["output file after the kill, read with Parser and get_hash"])

p("C21", "Entry kinds are totally ordered in the order of the index",
  "Comparing any two valid entry kinds is antisymmetric and transitive and agrees with the order in which the index lists them: a directory's files after the directory itself and before its subdirectories and later siblings.",
  ["inputs"],
  "All pairs and triples of absolute paths as directory or file entries.",
  "One test compares nine fixed kinds.",
  ["src/v1/parser.rs"],
  [("Ord for EntryKind", "src/v1/parser.rs EntryKind::cmp")], observe=["EntryKind::cmp"])

p("C22", "Hash type names round-trip",
  "Every supported hash type parses back from the name it displays as, and every other name is refused as unsupported.",
  ["inputs"],
  "All strings and hash types.",
  "Only the names used by the fixtures are exercised.",
  ["src/hash_type.rs"],
  [("FromStr and Display", "src/hash_type.rs")], observe=["HashType::from_str, Display"])

p("C23", "A scan only reads, and only what belongs to the tree",
  "A scan creates, changes and removes nothing in the file system and leaves the working directory of the process alone, whether it succeeds or fails. "
  "It opens only directories and regular files of the scanned directories, and only for reading; it never opens special files such as named pipes, sockets and devices (which can block or have side effects), and never opens or lists what a symlink points to.",
  ["inputs", "fault_sequences", "schedules"],
  "All trees with special files and with symlinks to files and directories in and outside the tree, with and without entry types in the listing, all thread counts and schedules, any file-system or output failure.",
  "The tests scan two directories without special files and look only at the output; what a scan opens or touches besides is not observed.",
  ["src/v1/scan.rs", "src/v1/writer.rs", "src/v1/threaded_writer.rs"],
  [("entry types decide what is opened", "src/v1/scan.rs scan"), ("files are opened relative to their directory and not through symlinks", "src/v1/writer.rs, src/v1/threaded_writer.rs add_file")],
  observe=["system calls of v1::scan on the file system"])

p("C24", "A scanned tree verifies against its index, and later changes are noticed",
  "For any tree and configuration, the index a scan writes can be parsed, every file of the unchanged tree checks against its entry, the extracted hash is its footer, emitting the parsed entries again gives the same bytes, and merging it with itself gives every entry twice. "
  "If the content of a file is changed, cut or extended afterwards, or can not be read, checking that file does not answer yes, while every other file still checks.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "All trees, thread counts, schedules and hash types, followed by any set of content changes and read failures, with short and interrupted reads everywhere.",
  "The tests exercise scanning, parsing, checking and emitting separately on fixed data; no test runs one on the result of the other for arbitrary trees.",
  ["src/v1/mod.rs", "src/v1/parser.rs", "src/v1/emitter.rs", "src/v1/merge.rs", "src/read.rs"],
  [("one format shared by writer, parser and emitter", "src/v1/writer.rs, src/v1/parser.rs, src/v1/emitter.rs"), ("check_file", "src/v1/parser.rs Hashes::check_file")],
  observe=["results of scan, Parser::iter, Hashes::check_file, get_hash, Emitter, MergedSignatures"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
