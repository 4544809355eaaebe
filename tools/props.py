#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well formed)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

INSTR = "none committed: the check builds /repo's current sources from an instrumented scratch copy with yield points, simulated sync, processor count and file system"

p("C01", "Any history of opens, partial reads and closes yields exact file bytes",
  "For a readable archive, every file opened yields exactly the bytes stored for it followed by a clean end of file, whatever other files were opened, partly read, abandoned, closed or kept open before or meanwhile, in whatever order and with whatever read buffer sizes, for every supported compression, filter and encryption chain. The listing (names, sizes, checksums, stream numbers, order) never changes during that history. No operation fails, panics or hangs when storage is healthy.",
  ["histories", "schedules", "configurations"],
  "All sequences of open/read(n)/close/reopen over all files of an archive, several handles at once, all buffer sizes, all processor counts, all coder chains, any interleaving of callers.",
  "The tests read every file once, in order, with one or two buffer shapes; reuse of a half-consumed stream reader, eviction, and decoder state carried across odd read sizes only appear in longer histories.",
  ["reader.go", "struct.go", "internal/pool/pool.go", "internal/bra/reader.go", "internal/delta/reader.go", "internal/bcj2/reader.go", "internal/aes7z/reader.go", "internal/util/reader.go"],
  [("File.Open picks a pooled reader at or before the file's offset, else builds a new one", "reader.go:File.Open"),
   ("folderReadCloser.Seek discards forward to the file", "struct.go:folderReadCloser.Seek"),
   ("fileReader bounds reads to the file's size", "reader.go:fileReader.Read"),
   ("LRU of idle stream readers keyed by offset", "internal/pool/pool.go")],
  [("pool items", "idle stream readers keyed by their position", "internal/pool/pool.go:pool.items"),
   ("offset", "where in its stream a file starts", "reader.go:File.offset")],
  ["File.Open", "Read", "Close", "Reader.File"], INSTR)

p("C02", "Concurrent callers never race, deadlock or disturb each other's results",
  "Any number of goroutines may use one archive and several archives at the same time - opening, reading and closing different files, walking the file system view, opening and closing archives, registering methods - and every one of them gets the same result it would get alone. There is no data race on shared state, no deadlock and no lost progress under any interleaving.",
  ["schedules", "histories"],
  "All interleavings, at statement granularity, of several callers each running a random operation list on shared and separate archives.",
  "The one concurrent test extracts whole streams in parallel under whatever schedule the machine gives; it is not run under the race detector with controlled interleavings, and a losing schedule is rare.",
  ["reader.go", "register.go", "internal/pool/pool.go", "internal/aes7z/key.go", "internal/brotli/reader.go", "internal/lz4/reader.go", "internal/zstd/reader.go", "internal/deflate/reader.go"],
  [("mutex around the idle-reader pool", "internal/pool/pool.go"),
   ("once-built file list", "reader.go:initFileList"),
   ("synchronised decompressor registry", "register.go:decompressors"),
   ("thread-safe key cache", "internal/aes7z/key.go"),
   ("process-wide decoder recycling", "internal/{brotli,lz4,zstd,deflate}/reader.go")],
  [("decompressors", "process-wide method registry", "register.go"), ("key cache", "process-wide derived keys", "internal/aes7z/key.go")],
  ["all exported operations"], INSTR)

p("C03", "Storage read errors reach the caller and never become wrong or missing data",
  "If reading the underlying storage fails at any point while a file is opened or read, the caller gets either the file's correct bytes or an error from which the storage error can be recovered with errors.Is - never wrong bytes, never a clean end of file before the last byte, never a panic or hang. Bytes returned along with or before the error are a correct prefix, and reading the same handle again after an error never yields wrong bytes. An operation never reports an error when no storage fault has occurred.",
  ["fault_sequences", "histories", "schedules"],
  "All placements of read errors (transient, repeated, persistent bad ranges, errors together with partial data) over all storage reads of all operation histories, for all coder chains.",
  "No test injects a storage error while file content is being read; the decoders' error paths are never executed.",
  ["reader.go", "struct.go", "internal/aes7z/reader.go", "internal/bcj2/reader.go", "internal/bra/reader.go", "internal/delta/reader.go", "internal/lzma/reader.go", "internal/lzma2/reader.go", "internal/zstd/reader.go", "internal/brotli/reader.go", "internal/lz4/reader.go", "internal/bzip2/reader.go", "internal/deflate/reader.go", "internal/ppmd/reader.go"],
  [("ReadError wraps and unwraps the cause", "reader.go:ReadError"),
   ("each decoder wraps non-EOF errors", "internal/*/reader.go:Read"),
   ("seek errors while skipping to a file are returned", "struct.go:folderReadCloser.Seek")],
  [("position", "bytes delivered from a stream so far", "struct.go:folderReadCloser.wc")],
  ["File.Open", "Read", "fs ReadFile"], INSTR)

p("C04", "After storage faults stop, an open archive serves every file again",
  "Once storage faults stop, every file of the already opened archive can be opened and read completely and correctly without reopening the archive, needing no more attempts than there were faults plus one. Handles, stream readers or recycled decoders that met a fault never poison later opens.",
  ["fault_sequences", "histories", "schedules"],
  "All histories containing any sequence of transient faults during opens, skips and reads, followed by a fault-free phase that reads every file.",
  "No test lets a fault happen and then continues to use the archive, so reuse of a reader broken by a fault is never exercised.",
  ["reader.go", "struct.go", "internal/pool/pool.go", "internal/aes7z/reader.go", "internal/brotli/reader.go", "internal/lz4/reader.go", "internal/zstd/reader.go", "internal/deflate/reader.go"],
  [("what is put back in the idle pool when a file is closed", "reader.go:fileReader.Close"),
   ("decoder reset when recycled", "internal/{brotli,lz4,zstd,deflate}/reader.go:NewReader")],
  [("pool items", "idle stream readers, which must be healthy", "internal/pool/pool.go")],
  ["File.Open", "Read", "Close"], INSTR)

p("C05", "Content cut short is never presented as a complete file",
  "If the storage ends early - the archive is cut at any byte, trailing volumes are missing or shrink, or reads start reporting end of file at any offset after the archive was opened - then opening the archive fails, or opening or reading an affected file returns an error that is not a clean end of file. Whatever bytes are delivered before the error are a correct prefix of the file; files of streams the cut does not touch stay readable.",
  ["fault_sequences", "crash_points", "histories"],
  "All cut positions, before opening and at any storage read afterwards, for all coder chains and volume layouts, all read histories.",
  "The tests never shorten an archive after it was opened, nor cut one inside a packed stream; each decoder treats an early end differently.",
  ["reader.go", "struct.go", "internal/aes7z/reader.go", "internal/bcj2/reader.go", "internal/bra/reader.go", "internal/delta/reader.go"],
  [("remaining byte count of a file handle", "reader.go:fileReader.n"),
   ("end of file from a coder before its declared size", "struct.go:coderReader"),
   ("block and filter readers deciding what an early end means", "internal/*/reader.go")],
  None, ["NewReader", "OpenReader", "File.Open", "Read"], INSTR)

p("C06", "Damaged archive metadata is rejected, never listed as something else",
  "If any bytes of the archive's metadata - the signature and start header, the header, or the packed header when it is compressed or encrypted - are flipped, zeroed, overwritten by other parts of the archive or lost by truncation, then opening the archive either fails with an error or produces exactly the original listing with intact file contents. It never panics, hangs, makes large allocations on account of unverified values, or yields different names, sizes, checksums or content.",
  ["fault_sequences", "crash_points", "inputs"],
  "All at-rest faults (bit flips, zeroed sectors, torn writes, misplaced blocks, truncation) over the metadata of all archive layouts.",
  "The tests open intact archives and a handful of crafted ones; they do not sweep damage over header bytes.",
  ["reader.go", "types.go", "struct.go", "internal/util/checksum.go"],
  [("start header CRC", "reader.go:init"), ("header CRC", "reader.go:init"), ("packed header CRC", "reader.go:init")],
  None, ["NewReader", "OpenReader", "Reader.File"], INSTR)

p("C07", "Damaged stored content never crashes, hangs or spreads",
  "If packed file content is damaged at rest or returned damaged by the storage, reading the affected files returns an error or bytes that disagree with the listed checksum, but never panics, never hangs and never loops without progress. Files in undamaged streams of the same archive, and every other archive, keep reading back exactly, whatever was read before.",
  ["fault_sequences", "inputs", "histories"],
  "All bit flips, zeroed, torn and misplaced blocks in packed streams, combined with all read histories over damaged and undamaged files.",
  "Only archive-open fuzzing and one fuzz seed directory exist; no test decodes a damaged packed stream and then goes on using the archive.",
  ["struct.go", "reader.go", "internal/bcj2/reader.go", "internal/bra/reader.go", "internal/delta/reader.go", "internal/brotli/reader.go", "internal/lz4/reader.go", "internal/zstd/reader.go", "internal/deflate/reader.go", "internal/lzma/reader.go", "internal/lzma2/reader.go", "internal/ppmd/reader.go", "internal/bzip2/reader.go"],
  [("decoder wrappers turning decoder failures into errors", "internal/*/reader.go"), ("size limit on each coder", "struct.go:coderReader"), ("recycled decoders reset before reuse", "internal/*/reader.go")],
  None, ["File.Open", "Read"], INSTR)

p("C08", "A multi-volume set behaves exactly like the joined archive",
  "However an archive is cut into consecutively numbered volumes - any number, any non-zero sizes including single bytes, with or without a self-extractor stub in front - opening the first volume gives the same listing and the same file contents, under the same histories and faults, as opening the joined file, and lists every volume in order. Input that is not an archive is reported as such in either form.",
  ["configurations", "histories", "schedules"],
  "All split points and volume counts of all archives, all operation histories, one or several callers.",
  "The tests open one six-volume archive with equal splits and read it in order.",
  ["reader.go"],
  [("volumes opened until the first missing number", "reader.go:openReader"), ("volumes joined into one reader", "reader.go:openReader (readerutil.NewMultiReaderAt)"), ("signature search for self-extractors", "reader.go:findSignature")],
  None, ["OpenReader", "Volumes", "Reader.File", "File.Open"], INSTR)

p("C09", "Every volume that is opened is closed exactly once on every path",
  "Each volume file the library opens is closed exactly once: by the failing open call when opening fails at any step (opening or sizing any volume, reading or parsing headers, wrong password), otherwise by the archive's Close and not before. A failure to open or size any volume other than 'does not exist' fails the open with an error that unwraps to it, a failing close of one volume never prevents closing the others and is reported, and the volume list names exactly the volumes opened.",
  ["fault_sequences", "crash_points", "histories"],
  "All combinations of failing open, stat, read and close over all volumes and all steps of opening and closing an archive.",
  "File-system failures cannot be provoked through the real file system the tests use; one internal test stubs a single stat failure.",
  ["reader.go"],
  [("cleanup on each error path", "reader.go:openReader, OpenReaderWithPassword"), ("joined close", "reader.go:ReadCloser.Close")],
  [("open files", "files owned by the archive", "reader.go:ReadCloser.f")],
  ["OpenReader", "OpenReaderWithPassword", "Close", "Volumes"], INSTR)

p("C10", "Key caching is invisible: decryption depends only on archive and password",
  "What an encrypted archive decrypts to depends only on its stored parameters and the password given: the right password always yields the right bytes and a different password never does, regardless of which archives, passwords, salts and cost settings were used earlier or are used concurrently, how often the same file is opened, and how many distinct keys were used in between.",
  ["histories", "schedules", "configurations"],
  "All sequences and interleavings of opens over more (password, salt, cost) combinations than the cache holds, including near-identical ones, wrong passwords and repeated opens.",
  "Tests open each encrypted archive once with one password; cache hits, evictions, aliasing and concurrent first use are not reached.",
  ["internal/aes7z/key.go", "internal/aes7z/reader.go", "struct.go", "reader.go"],
  [("process-wide LRU of derived keys", "internal/aes7z/key.go:calculateKey"), ("per-reader cipher set up from salt, IV and password", "internal/aes7z/reader.go:Password")],
  [("key cache", "derived keys by (password, cycles, salt)", "internal/aes7z/key.go:once")],
  ["NewReaderWithPassword", "OpenReaderWithPassword", "File.Open", "Read"], INSTR)

p("C11", "Failures say correctly whether encryption is involved",
  "When opening or reading a file fails because its stream cannot be read or decoded - wrong or missing password, storage error, cut or damaged content - the error is a ReadError whose encryption hint is set exactly when that file's stream is encrypted; when a compressed or encrypted header cannot be decoded or does not match its checksum, the open error is a ReadError whose hint is set exactly when the header is encrypted. The hint does not depend on where in the stream, in which call or after which other operations the failure happened.",
  ["fault_sequences", "histories", "configurations"],
  "All fault placements, wrong passwords and cuts over archives mixing encrypted and plain streams with plain, compressed and encrypted headers.",
  "Three tests check the hint for one wrong password each; faults at other steps and mixed archives are not covered.",
  ["reader.go", "struct.go"],
  [("ReadError.Encrypted", "reader.go"), ("hint computed while the coder chain is built", "struct.go:folderReader, coderReader")],
  [("hasEncryption", "a coder of the stream takes a password", "struct.go:folderReadCloser")],
  ["NewReaderWithPassword", "File.Open", "Read"], INSTR)

p("C12", "Reading a stream's files front to back decodes the stream only once",
  "If the files of a stream are opened in archive order, each read as far as the caller likes and closed before the next of that stream is opened, then no byte of the packed stream is fetched from storage twice and at most one decoder chain is built for it - also when files are skipped or closed early, when several streams or archives are walked at the same time by different callers, and on a single-processor machine.",
  ["histories", "schedules", "configurations"],
  "All forward-only histories (full, partial, zero-length reads, skips), all interleavings of one such walker per stream, all processor counts.",
  "Tests compare only results; the documented optimisation is measured by benchmarks that assert nothing.",
  ["reader.go", "internal/pool/pool.go", "struct.go"],
  [("a closed file's stream reader is parked at its offset", "reader.go:fileReader.Close, internal/pool/pool.go:Put"), ("the nearest parked reader at or before the next offset is taken", "internal/pool/pool.go:Get")],
  [("pool items", "idle stream readers by offset", "internal/pool/pool.go")],
  ["storage ReadAt calls", "decompressor constructor calls"], INSTR)

p("C13", "Decoder instances have one user at a time, are bounded and do not leak",
  "A decoder instance serves at most one open file at any moment, is never used after it was closed and is closed at most once, also when opens, reads and closes fail or run concurrently. An instance that no open file uses is either closed or parked for reuse, with at most as many parked per stream as there are processors, so that the number of live instances stays bounded by open files plus that limit however long the history.",
  ["histories", "schedules", "fault_sequences"],
  "All histories and interleavings of open, read, close and failing storage over archives whose methods are supplied by the caller and count their instances.",
  "Decoder lifetime is not observable in the tests' assertions; leaks and double use need particular close orders or failures.",
  ["reader.go", "struct.go", "internal/pool/pool.go"],
  [("pool hands out and removes under one lock", "internal/pool/pool.go:Get"), ("eviction closes the oldest", "internal/pool/pool.go:Put"), ("close on end of stream, park otherwise", "reader.go:fileReader.Close"), ("chain construction", "struct.go:folderReader")],
  [("pool size", "processor count at open time", "internal/pool/pool.go:NewPool")],
  ["registered decompressors' Read and Close calls"], INSTR)

p("C14", "Recycled decoders never carry state between files or archives",
  "Reading a healthy file gives its exact bytes no matter what other streams were decoded before or are being decoded meanwhile in the same process with the same or other methods: completely, only partly and then abandoned or closed, damaged, cut short, failed by storage errors, or never closed. A closed file handle or archive never affects another one.",
  ["histories", "schedules", "fault_sequences"],
  "All histories over several archives, of which some are damaged, cut, faulty or abandoned and at least one is healthy, with decoder recycling on and off at random.",
  "Tests open one archive per process-wide decoder kind at a time and decode it to the end, so a dirty recycled decoder is never handed out.",
  ["internal/brotli/reader.go", "internal/lz4/reader.go", "internal/zstd/reader.go", "internal/deflate/reader.go", "internal/aes7z/key.go", "reader.go"],
  [("sync.Pool of decoders with Reset", "internal/{brotli,lz4,zstd,deflate}/reader.go"), ("process-wide key cache", "internal/aes7z/key.go")],
  [("decoder pools", "idle decoders shared by all archives", "internal/*/reader.go")],
  ["File.Open", "Read", "Close"], INSTR)

p("C15", "The file system view is one consistent tree for every caller",
  "Opened through the standard file system interface, an archive shows one fixed tree: every file and every explicit or implied directory is found under its slash-separated path, listing a directory returns each child exactly once in name order however the listing is paged, opening an invalid or unknown path fails with the matching standard error, and a file's information and content equal the archive's listing and bytes. Where several entries claim one path, opening it gives the first of them and listing its directory reports the conflict, while the rest of the tree is unaffected. This holds from the first use on, for any number of concurrent first users, for empty files and directories too, and storage errors while reading a file are returned, not hidden.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of first and later use of the view by several callers, all page sizes, trees with implied and explicit directories and empty files, and storage faults during content reads.",
  "fstest runs sequentially on a few archives; concurrent first use, paging across calls by several handles, empty files and faults are not covered.",
  ["reader.go", "struct.go"],
  [("once-built sorted index", "reader.go:initFileList"), ("binary search lookup", "reader.go:openLookup, openReadDir"), ("paged directory reads", "reader.go:openDir.ReadDir")],
  [("fileList", "sorted entries", "reader.go:Reader.fileList")],
  ["Reader.Open", "ReadDir", "fs.WalkDir", "fs.ReadFile", "fs.Stat"], INSTR)

p("C16", "Closing a file or archive at any moment is safe",
  "A file handle may be closed at any moment - unread, half read, at its end, after an error, twice - and an archive may be closed while its files are open or being read by others. Reading a closed handle returns an error and no data; reading an open file of a closed archive returns correct bytes or an error; nothing panics, hangs or changes what other handles deliver, and closing a healthy handle reports no error.",
  ["schedules", "crash_points", "histories"],
  "All interleavings of file close, archive close and further operations on the same and other handles.",
  "Tests close each handle once at its end, before the archive, from the same goroutine.",
  ["reader.go", "struct.go", "internal/pool/pool.go"],
  [("handle close and parking", "reader.go:fileReader.Close"), ("archive close", "reader.go:ReadCloser.Close"), ("already-closed errors in decoders", "internal/*/reader.go")],
  [("fileReader.rc", "nil once closed", "reader.go")],
  ["Read", "Close", "ReadCloser.Close"], INSTR)

p("C17", "Opening an archive on faulty storage succeeds fully or fails cleanly",
  "If storage fails at any read while an archive is being opened - during the signature search, the headers or the packed header, from memory, one file or many volumes - the open either succeeds with exactly the archive's listing or returns no reader and an error that unwraps to the storage error. It never panics or hangs, never reports healthy storage as faulty, and the same open succeeds as soon as the fault is gone.",
  ["fault_sequences", "crash_points", "configurations"],
  "All placements of read errors, partial reads with errors and early ends over all storage reads issued while opening, for all header forms, stub sizes and volume layouts.",
  "No test lets the storage fail during open.",
  ["reader.go", "types.go", "struct.go"],
  [("signature search", "reader.go:findSignature"), ("header reading", "reader.go:init"), ("header parsing", "types.go")],
  None, ["NewReader", "OpenReader"], INSTR)

p("C18", "Registered decompressors take effect atomically for all callers",
  "Registering a decompressor for a method takes effect at one instant between the start and the return of the call: every decoder built for that method from then on - when a file is opened and no decoder of its stream is parked for reuse - comes from it, or from a newer one, and decoders built by concurrent opens come from either the old or the new one, never from an outdated one or none. Registrations for different methods never disturb each other, and a file whose method is unknown fails with an error until the method is registered and then opens without reopening the archive.",
  ["schedules", "histories"],
  "All interleavings of registrations and file opens by several callers over several methods.",
  "Tests register methods once at start-up; replacement and concurrent registration are not exercised.",
  ["register.go", "struct.go"],
  [("synchronised registry", "register.go:decompressors"), ("lookup at chain construction", "struct.go:coderReader")],
  [("decompressors", "method registry", "register.go")],
  ["RegisterDecompressor", "File.Open"], INSTR)

p("C19", "Hostile but checksum-valid headers are rejected without panic or huge memory",
  "An archive whose headers carry correct checksums but arbitrary values - counts, sizes, offsets, indexes, coder graphs, bit vectors, properties, missing, repeated or reordered records, in the start header, the header or a packed or encrypted header - is either opened or rejected with an error, never with a panic, an endless loop or an allocation out of proportion to the input, whatever its storage does. If it is opened, listing it, walking its file system view and opening and reading its files end in results or errors, too, no file delivers more bytes than it is listed with, and other archives read at the same time or afterwards are not affected.",
  ["inputs", "fault_sequences", "histories", "schedules"],
  "All headers with valid checksums; all uses of an archive that was opened from one.",
  "Fuzz seeds and a few crafted archives sample the input space, and only open.",
  ["types.go", "struct.go", "reader.go"],
  [("bounds on counts and sizes", "types.go:checkUint64"), ("coder graphs", "struct.go:folder.coderReader"), ("files to streams", "struct.go:streamsInfo.FileFolderAndSize"), ("packed header", "types.go:readEncodedHeader")],
  None, ["NewReader", "OpenReader", "File.Open"], INSTR)

p("C20", "Header fields map to the documented file information",
  "Names, order, sizes, checksums, streams, timestamps, attributes and modes reported for a file are the documented function of the stored fields, including Unix modes in the high attribute bits, the full range of times and sanitised paths in the file system view - whichever of the equivalent header forms the writer chose (vectors for all or some files, optional, repeated padding or reordered records, number encodings, checksums per stream or per file), however the archive is stored (one file, volumes, memory, behind a stub, on slow storage or after failed attempts to open it), whatever happens to its content, and for every caller at every time.",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "All stored field values and header forms, under all histories of opens, failed opens and queries by several callers.",
  "Tests check the values of a few archives as one writer lays them out.",
  ["struct.go", "types.go", "reader.go"],
  [("mode mapping", "struct.go:FileHeader.Mode"), ("time conversion", "types.go:readTimes"), ("path sanitising", "reader.go:toValidName"), ("files and streams", "reader.go:Reader.init")], None, ["FileHeader", "FileInfo", "Reader.Open"], INSTR)

p("C22", "A stalled storage read delays only the call that issued it",
  "If a read of the underlying storage stalls, only the call that issued it waits. Every other caller - opening, reading, seeking past and closing other files of the same stream, of the same archive or of other archives, listing, walking the file system view, opening and closing archives, registering methods - gets its results without waiting for that read to finish, and when it does finish, the stalled call goes on to its correct result.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of callers with storage reads that stall until nothing else can make progress.",
  "Tests read from local files that never stall.",
  ["reader.go", "struct.go", "internal/pool/pool.go"],
  [("pool lock not held during I/O", "internal/pool/pool.go:pool.Put"), ("registry and key cache", "register.go, internal/aes7z/key.go"), ("file list built once", "reader.go:initFileList")],
  [("pool.mutex", "guards the parked readers of a stream", "internal/pool/pool.go")],
  ["File.Open", "Read", "Close", "Reader.Open"], INSTR)

p("C23", "Memory stays bounded however large a file is and however it is read",
  "However large a file is and however it is read - in pieces of any size, past earlier files, several files of a stream open at once, abandoned and opened again, by several callers, with failing storage in between - memory in use does not grow with the amount of data: every open or parked decoder holds no more than its coders ask for (dictionaries and fixed buffers), the number of parked decoders is bounded, and once everything is closed and dropped no more than a bounded number of recycled decoders remains.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "All histories of opens, reads, seeks, abandonments and closes over streams of any size and any coder chain.",
  "Tests read small archives once and measure no memory.",
  ["reader.go", "struct.go", "internal"],
  [("decoder pools", "internal/*/reader.go"), ("reader pool of a stream", "internal/pool/pool.go"), ("buffering in the filters", "internal/bcj2/reader.go, internal/bra/reader.go"), ("skipping to a file", "reader.go:File.Open")],
  [("pool", "parked readers of a stream, bounded", "internal/pool/pool.go")],
  ["File.Open", "Read", "Close"], INSTR)

p("C24", "A header is read exactly as the format defines it, or refused",
  "For an archive whose checksums are right: if its header is well-formed and uses only what every archiver writes, it opens, and the entries listed - how many, in which order, their names, sizes, checksums, times, attributes, kinds and streams - are exactly those that the header's records denote by the description of the format, for any number of folders, coders, bonds between them, streams and files, any encoding of numbers, any names, and any vectors. If the header is broken - it ends early, has another record where a certain one is required, has counts or sizes that do not add up, files without a stream, folders without their packed streams, information stored elsewhere, or bytes left over - opening it fails with an error rather than with a listing made up from what was misread. The answer is the same at every attempt, plain or packed, in one file or in volumes, on slow or briefly failing storage and for every caller.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "All headers, well-formed or not, with valid checksums.",
  "Tests read the headers of a few archives by two or three writers.",
  ["types.go", "struct.go", "reader.go"],
  [("numbers and vectors", "types.go:readUint64, readBool, readOptionalBool"), ("folders", "types.go:readFolder, readUnpackInfo"), ("files of a folder", "types.go:readSubStreamsInfo, struct.go:streamsInfo.FileFolderAndSize"), ("files", "types.go:readFilesInfo")],
  None,
  ["NewReader", "OpenReader", "Reader.File"], INSTR)

# ---- stated, but not claimed (pure functions of the input) -------------
p("C21", "Each decoder implements its format completely",
  "Every stream a conforming 7-Zip encoder can produce with a supported method and any of its parameters decodes to the original data.",
  ["inputs"], "All encoder outputs and parameters.",
  "Tests decode one sample per method.",
  ["internal"], [("codec wrappers", "internal/*")], None, ["Read"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
