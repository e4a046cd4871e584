#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], state=state or [], hook_needed=hook)))

I = "include/z5/"
p("C01", "Region writes and reads equal an in-memory array",
  "After any sequence of region writes, scalar fills, chunk writes, chunk removals and reopenings of a dataset, reading any region returns exactly what an in-memory array of the same shape and type initialised to the fill value would hold. This holds for every format (n5, zarr v2, zarr v3, sharded), element type, compressor, chunk and shard shape, chunk-key delimiter and thread count, whatever the memory layout of the caller's array, and for every interleaving of the worker threads. A request that does not fit the dataset (outside of the array, empty, of the wrong dimension, an index outside of the chunk grid) is refused with an exception and changes nothing.",
  ["inputs", "histories", "schedules", "configurations"],
  "every operation history over every dataset configuration and every scheduling of the worker threads each call starts",
  "The tests write one or two regions per configuration and let the OS pick one interleaving; the product of formats, types, codecs, overlaps, edge chunks, thread counts and worker interleavings is never reached.",
  [I+"multiarray/array_access.hxx", I+"multiarray/broadcast.hxx", I+"multiarray/array_util.hxx", I+"generic/dataset.hxx", I+"generic/sharded_dataset.hxx", I+"util/blocking.hxx", I+"util/format_data.hxx", I+"util/sharding.hxx", I+"compression/"],
  [("per-thread reusable chunk buffers", I+"multiarray/array_access.hxx forEachBuffered/forEachWithState"),
   ("read-modify-write of partially covered chunks", I+"multiarray/array_access.hxx prepareChunkWriteBuffer"),
   ("all-fill chunks are erased instead of stored", I+"util/format_data.hxx data_to_buffer")],
  ["multiarray::readSubarray", "multiarray::writeSubarray", "multiarray::writeScalar", "Dataset::writeChunk", "Dataset::readChunk", "Dataset::chunkExists"])

p("C02", "Concurrent calls on different chunks do not affect each other",
  "When several threads use one file at the same time, each writing, reading or removing chunks that no other thread writes (including different inner chunks of the same shard when they are updated chunk by chunk through one dataset object), every call succeeds and the final content, and everything each thread reads back, is what it would be had the threads run one after the other. Reading needs no coordination with other readers.",
  ["schedules", "histories", "configurations"],
  "every interleaving of concurrent calls on pairwise disjoint chunks, through one shared dataset object or several handles of the same dataset",
  "Tests that use threads run one OS-chosen interleaving of a few calls; a lost update or a half-written shard seen by a neighbour needs a preemption at one particular instruction or system call.",
  [I+"generic/sharded_dataset.hxx", I+"generic/dataset.hxx", I+"filesystem/store.hxx", I+"filesystem/handle.hxx", I+"multiarray/array_access.hxx"],
  [("lock around the shard read-modify-write of direct chunk writes", I+"generic/sharded_dataset.hxx writeInnerBlob"),
   ("concurrent creation of nested chunk directories", I+"filesystem/handle.hxx Chunk::create"),
   ("cached format flag", I+"filesystem/handle.hxx Dataset::isZarr")],
  ["Dataset::writeChunk", "Dataset::readChunk", "Dataset::removeChunk", "multiarray::writeSubarray", "multiarray::readSubarray"])

p("C03", "A write that reports success is completely stored",
  "If a call that stores something (chunk, region, scalar fill, attribute, group or dataset creation, removal) returns without an exception, then its complete effect is in the store and is seen by any later reader or newly opened handle, whatever errors (full disk, I/O error, short write, permission, interrupted call) the operating system returned while it ran. An error that prevents the effect is reported to the caller as an exception, also when it happened in a worker thread or only when the file was closed.",
  ["fault_sequences", "histories", "schedules"],
  "every sequence of I/O faults injected at any system call of any storing operation, under any scheduling of its workers",
  "The tests never make a system call fail, so no error path of a write runs in them.",
  [I+"filesystem/store.hxx", I+"filesystem/attributes.hxx", I+"filesystem/metadata.hxx", I+"filesystem/handle.hxx", I+"util/threadpool.hxx", I+"generic/sharded_dataset.hxx"],
  [("stream state checks after writing", I+"filesystem/store.hxx writeFile"),
   ("JSON document writer", I+"filesystem/attributes.hxx JsonIO::write"),
   ("worker exceptions are re-thrown to the caller", I+"util/threadpool.hxx getFutures")],
  ["multiarray::writeSubarray", "Dataset::writeChunk", "writeAttributes", "createDataset", "createGroup", "Dataset::remove"])

p("C04", "A failed write harms nothing but its own target",
  "When a storing call fails with an exception, every chunk and attribute that the call was not asked to change keeps its value, all metadata stays readable, and every chunk or attribute document that it was asked to change holds either its old or its new value. No unfinished file stays behind unless removing it failed as well, and the same data can be written again once the fault is gone.",
  ["fault_sequences", "histories"],
  "every injected fault position and kind inside every storing call, with arbitrary content stored before",
  "No test makes a write fail halfway and then looks at the neighbours, in particular at the other inner chunks of a shard or the other keys of an attribute file.",
  [I+"filesystem/store.hxx", I+"filesystem/attributes.hxx", I+"generic/sharded_dataset.hxx", I+"generic/attributes.hxx"],
  [("replacement of a stored file", I+"filesystem/store.hxx writeFile"),
   ("shard read-modify-write preserves untouched slots", I+"generic/sharded_dataset.hxx writeShardBlobs"),
   ("attribute merge", I+"generic/attributes.hxx writeAttributes")],
  ["multiarray::writeSubarray", "Dataset::writeChunk", "writeAttributes", "openDataset"])

p("C05", "Killing the process at any point never corrupts stored data",
  "If the process is killed at any instant, then after a restart every file, group and dataset whose creation had returned still opens with the same metadata, every acknowledged write is readable, attributes acknowledged before are intact, and each chunk or attribute document with a write in flight holds its old or its new value. Writing to the dataset works after the restart.",
  ["crash_points", "histories", "schedules"],
  "every system-call boundary (and every partial data write) as the instant of death, for every history and interleaving",
  "The tests never kill the process inside an operation; each of the hundreds of system calls of a history is a distinct crash point.",
  [I+"filesystem/store.hxx", I+"filesystem/attributes.hxx", I+"filesystem/metadata.hxx", I+"filesystem/factory.hxx", I+"generic/sharded_dataset.hxx"],
  [("replacement of a stored file", I+"filesystem/store.hxx writeFile"),
   ("metadata and attributes share one document (n5, zarr v3)", I+"generic/attributes.hxx writeV3Attributes")],
  ["openDataset", "multiarray::readSubarray", "readAttributes"])

p("C06", "A read that meets an I/O fault never returns wrong data",
  "When an I/O error, an interrupted call or a short read happens while data, metadata or attributes are read, the call either returns the correct stored value or throws. It never returns fill values, stale or partial data for something that is stored, never reports a stored chunk, attribute or child as absent, and reads work again when the fault is gone.",
  ["fault_sequences", "histories", "schedules"],
  "every read-side system call as the place of the fault, for every stored content and worker interleaving",
  "No test injects read faults; the tests only see reads for which every system call works.",
  [I+"filesystem/store.hxx", I+"filesystem/attributes.hxx", I+"filesystem/metadata.hxx", I+"filesystem/handle.hxx", I+"factory.hxx", I+"multiarray/array_access.hxx"],
  [("size and count checks of the file reader", I+"filesystem/store.hxx readFile"),
   ("existence probes", I+"filesystem/store.hxx ChunkStore::read"),
   ("JSON document reader", I+"filesystem/attributes.hxx JsonIO::read")],
  ["multiarray::readSubarray", "Dataset::readChunk", "openDataset", "readAttributes", "Dataset::chunkExists"])

p("C07", "Damaged stored chunks raise errors, never garbage or crashes",
  "When a stored chunk or shard file has been truncated at any length (including empty), or the index of a shard no longer matches its checksum or points outside the stored data, reading it throws an exception instead of returning wrong values, for every format and compressor. No damage whatsoever to stored chunk bytes makes a read or a partial overwrite crash, read or write outside its buffers, or discard the undamaged chunks of other files or the remaining inner chunks of the shard.",
  ["fault_sequences", "inputs", "configurations"],
  "every truncation length and every corruption of stored bytes (lost tail, zeroed block, flipped bytes, exchanged files) of every format and compressor",
  "A few tests truncate one file; every codec has its own decoder with its own notion of a short input, and a file can be cut at any byte.",
  [I+"util/format_data.hxx", I+"util/sharding.hxx", I+"compression/", I+"generic/sharded_dataset.hxx", I+"multiarray/array_access.hxx"],
  [("n5 header validation", I+"util/format_data.hxx read_n5_header"),
   ("shard index checksum and bounds", I+"util/sharding.hxx parseShardIndex"),
   ("decoder output size checks", I+"compression/*_compressor.hxx decompress")],
  ["multiarray::readSubarray", "Dataset::readChunk", "multiarray::writeSubarray", "Dataset::chunkExists"])

p("C08", "Sharding is transparent and leaves the neighbours alone",
  "A sharded dataset behaves exactly like an unsharded one under any history of region writes, chunk writes, erasing writes and chunk removals: updating one inner chunk never changes another inner chunk of the shard, a chunk counts as existing exactly if it holds something else than the fill value, and a shard in which no chunk is left disappears from the store. This holds for concurrent chunk updates through one dataset object under every interleaving.",
  ["histories", "schedules", "inputs"],
  "every history of inner-chunk updates, sequential or concurrent, over every shard geometry",
  "The tests write whole arrays or a handful of chunks; erasing and re-creating slots in all orders and under all interleavings is not sampled.",
  [I+"generic/sharded_dataset.hxx", I+"util/sharding.hxx", I+"multiarray/array_access.hxx"],
  [("slot arithmetic", I+"util/sharding.hxx shardId/shardSlot"),
   ("shard rebuild", I+"util/sharding.hxx buildShard"),
   ("shard lock", I+"generic/sharded_dataset.hxx writeInnerBlob")],
  ["Dataset::writeChunk", "Dataset::removeChunk", "Dataset::chunkExists", "multiarray::writeSubarray"])

p("C09", "The thread pool runs every task once and never hangs",
  "Every task given to a thread pool that is not being destroyed runs exactly once on a worker id below the number of workers, its result or exception reaches its future, and waiting for completion returns if and only if all tasks queued before have finished, under every interleaving and with spurious wake-ups. Destroying the pool always terminates and runs no task afterwards; a parallel loop visits each item exactly once, returns only when no task is running any more, and re-throws the exception of a failing item.",
  ["schedules", "histories", "configurations"],
  "every interleaving of submitters, workers, waiters and the destructor, for every number of workers and items, with failing tasks",
  "A test run observes one interleaving; lost wake-ups and premature returns need specific preemptions between two adjacent instructions.",
  [I+"util/threadpool.hxx"],
  [("queue mutex and two condition variables", I+"util/threadpool.hxx ThreadPool::init"),
   ("all futures are awaited before re-throwing", I+"util/threadpool.hxx getFutures"),
   ("queued tasks are discarded on destruction", I+"util/threadpool.hxx ThreadPool::~ThreadPool")],
  ["ThreadPool::enqueue", "ThreadPool::enqueueReturning", "ThreadPool::waitFinished", "parallel_foreach"])

p("C10", "Parallel chunk and block iteration visits each unit exactly once",
  "Iterating in parallel over the chunks or blocks of a dataset, or of a region of it, calls the given function exactly once for every chunk or block that overlaps the region and for no other, with its correct coordinates and extent, for every thread count. The worker id passed is below the number of threads and never in use by two calls at the same time; an exception from the function reaches the caller after all running calls have ended.",
  ["schedules", "inputs", "configurations"],
  "every shape, chunk and block shape, region, thread count and interleaving",
  "The tests check one shape and one interleaving each and cannot observe two simultaneous uses of one worker id.",
  [I+"util/for_each.hxx", I+"util/blocking.hxx", I+"util/threadpool.hxx"],
  [("chunk id to coordinate mapping", I+"util/blocking.hxx blockIdToBlockCoordinate"),
   ("region overlap", I+"util/blocking.hxx getBlocksOverlappingRoi")],
  ["parallel_for_each_chunk", "parallel_for_each_chunk_in_roi", "parallel_for_each_block", "parallel_for_each_block_in_roi"])

p("C11", "Parallel dataset utilities equal their sequential meaning",
  "Computing the unique values (with counts) of a dataset, removing chunks of one single value and removing a whole dataset with any number of threads give the result of the sequential computation over the stored chunks, under every interleaving and for every format including sharded datasets. When an I/O fault hits one of the workers the call throws instead of returning a partial result; a call for values of a type other than the dataset's is refused and changes nothing.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of the workers, thread count and injected fault, for every stored content",
  "The tests call each function once with one thread count; the shared accumulator and concurrent chunk removals depend on the interleaving.",
  [I+"util/functions.hxx", I+"util/for_each.hxx", I+"generic/sharded_dataset.hxx"],
  [("per-worker accumulators merged at the end", I+"util/functions.hxx unique/uniqueWithCounts"),
   ("chunk removal under the shard lock", I+"generic/sharded_dataset.hxx removeChunk")],
  ["util::unique", "util::uniqueWithCounts", "util::removeTrivialChunks", "util::removeDataset"])

p("C12", "Every call ends: no deadlock or endless retry",
  "Every library call returns or throws within a bounded number of steps whatever faults (I/O errors, full disk, interrupted calls, failing workers, slow threads) occur while it runs, and once the faults stop later calls on the same objects make progress as usual.",
  ["schedules", "fault_sequences"],
  "every interleaving and fault sequence over reads, writes, utilities and pool use",
  "A hang needs a fault or a preemption at one point; tests run without faults and with one interleaving.",
  [I+"util/threadpool.hxx", I+"util/for_each.hxx", I+"multiarray/array_access.hxx", I+"generic/sharded_dataset.hxx"],
  [("notification protocol of the pool", I+"util/threadpool.hxx"), ("scoped shard lock", I+"generic/sharded_dataset.hxx writeInnerBlob")],
  ["multiarray::readSubarray", "multiarray::writeSubarray", "ThreadPool"])

p("C13", "Attribute updates merge and touch nothing else",
  "Over any history of attribute writes and removals on files, groups and datasets of every format, interleaved with data writes, faults and restarts, reading the attributes returns exactly the last acknowledged value of every key: an update changes only the keys it names and a removal only its key. Reserved metadata keys cannot be overwritten or removed through attributes and do not show up as attributes of a dataset, and attributes never alter data or metadata.",
  ["histories", "fault_sequences", "crash_points"],
  "every history of updates and removals over nested JSON values, with faults and restarts in between",
  "The tests write and read a few keys once; merging, shared documents (n5 and zarr v3 keep metadata in the same file) and failing rewrites over longer histories are not reached.",
  [I+"generic/attributes.hxx", I+"attributes.hxx", I+"filesystem/attributes.hxx", I+"generic/metadata.hxx"],
  [("read-merge-write of the document", I+"generic/attributes.hxx writeAttributes"),
   ("protection of reserved keys", I+"attributes.hxx protectN5DatasetAttributes")],
  ["readAttributes", "writeAttributes", "removeAttribute"])

p("C14", "A dataset keeps the metadata it was created with",
  "Once the creation of a dataset has returned, every later opening, by any handle, after any history of writes, attribute changes, failures and restarts, reports the same shape, chunk shape, shard shape, element type, compressor, fill value and chunk-key layout and addresses the same stored chunks; this depends neither on where the directory is kept, nor on whether the group around it holds metadata, nor on which of its equivalent forms the metadata document has (fields with default values left out, names of older versions, other notation, additional fields of other programs, which later calls keep). A dataset whose creation did not complete either fails to open or opens with exactly the requested metadata.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "every configuration, every later history, and every fault or kill point during creation or attribute updates",
  "The tests reopen right after a fault-free creation; nothing interrupts a metadata write.",
  [I+"metadata.hxx", I+"factory.hxx", I+"filesystem/factory.hxx", I+"filesystem/metadata.hxx", I+"generic/metadata.hxx"],
  [("metadata writer", I+"generic/metadata.hxx writeDatasetMetadata"), ("metadata reader", I+"filesystem/metadata.hxx readMetadata"),
   ("chunk-key configuration on opening", I+"factory.hxx getZarrChunkConfig")],
  ["createDataset", "openDataset"])

p("C15", "Read-only handles never change the store",
  "Through a file, group or dataset handle opened read-only, no sequence of calls, in any interleaving and under any fault, creates, changes, truncates, renames or removes anything in the store; every mutating call throws and leaves the store bit-identical. A mode without creation rights never creates a file.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of calls of the whole interface on handles of every mode, for every format",
  "The tests try a few mutating calls on a read-only handle; they do not compare the whole store afterwards, nor cover every mutating entry point and format.",
  [I+"util/file_mode.hxx", I+"filesystem/handle.hxx", I+"generic/dataset.hxx", I+"generic/sharded_dataset.hxx", I+"attributes.hxx", I+"util/functions.hxx", I+"multiarray/array_access.hxx"],
  [("mode checks at every mutating entry point", I+"generic/dataset.hxx writeChunk; "+I+"generic/sharded_dataset.hxx writeShardBlobs; "+I+"attributes.hxx; "+I+"filesystem/handle.hxx")],
  ["every mutating call", "the simulated disk: any mutating system call"])

p("C16", "Creating never damages what exists and is usable or absent",
  "Creating a file, group or dataset where one already exists throws and leaves the existing object with all data and attributes unchanged. A successful creation yields an empty object of exactly the requested kind; a creation that fails or is killed leaves everything else untouched, and the name can be created again after removing what was left behind. A dataset that cannot exist (chunks of size zero, disagreeing dimensions, an unknown type or codec, a shard that is no multiple of the chunk) is refused without leaving anything.",
  ["histories", "fault_sequences", "crash_points"],
  "every history of creations and removals with faults or a kill at any system call of the creation",
  "The tests create twice once and expect an exception; they do not inject faults into creation nor compare the rest of the store.",
  [I+"filesystem/factory.hxx", I+"filesystem/handle.hxx", I+"factory.hxx", I+"generic/metadata.hxx"],
  [("existence check before creating", I+"filesystem/handle.hxx create"), ("metadata written after the directory", I+"filesystem/factory.hxx createDataset")],
  ["createFile", "createGroup", "createDataset"])

p("C17", "Removal deletes exactly the named object, completely or loudly",
  "Removing a chunk, dataset, group or file removes that object with everything below it and nothing else; other objects with similar names keep all data and attributes. If the removal cannot be completed the call throws, whatever remains of other objects is untouched, and removing again after the fault is gone completes it; a name that was removed can be created anew without traces of the old content.",
  ["histories", "fault_sequences", "crash_points", "schedules"],
  "every hierarchy, removal history, fault position and interleaving of the parallel removal",
  "The tests remove one object without faults and look only at that object.",
  [I+"filesystem/handle.hxx", I+"util/functions.hxx", I+"generic/dataset.hxx"],
  [("recursive removal", I+"filesystem/handle.hxx removeDir"), ("parallel chunk removal", I+"util/functions.hxx removeDataset")],
  ["Handle::remove", "Dataset::remove", "Dataset::removeChunk", "util::removeDataset"])

p("C18", "Listing and probing reflect the stored hierarchy",
  "After any history of creations and removals, in whatever order the file system lists entries, a group lists exactly its direct children once each, membership tests agree with the listing, and every child is classified as group or dataset and as zarr or n5 according to how it was created. When the listing or a probe fails with an I/O error the call throws instead of returning a partial or wrong answer.",
  ["histories", "fault_sequences"],
  "every hierarchy and history, directory order and injected fault",
  "The tests list small fixed trees on a file system that never fails.",
  [I+"filesystem/handle.hxx", I+"generic/attributes.hxx", I+"filesystem/attributes.hxx"],
  [("directory iteration", I+"filesystem/handle.hxx listSubDirs"), ("node type probe", I+"generic/attributes.hxx isSubGroup")],
  ["Group::keys", "Group::in", "isSubGroup", "Handle::isZarr"])

p("C19", "S3: a failing request is never taken for a missing object",
  "With the S3 backend, when a request fails for any other reason than the object being absent (timeout, throttling, access denied, truncated body), reads, existence checks, listings and openings throw or return the correct stored value; they never return fill values, empty attributes, a partial listing or 'does not exist' for something stored. An attribute or chunk update that meets such a failure never discards stored keys or neighbours.",
  ["fault_sequences", "histories"],
  "every failing response of every request of every operation, for every stored content",
  "No test compiles or runs the S3 backend without a live server, and a live server does not fail on demand.",
  [I+"s3/handle.hxx", I+"s3/store.hxx", I+"s3/attributes.hxx", I+"s3/metadata.hxx", I+"s3/factory.hxx"],
  [("absence detection from the error type", I+"s3/handle.hxx objectExists"), ("listing with continuation", I+"s3/handle.hxx keysImpl")],
  ["readSubarray on an S3 dataset", "Group::keys", "readAttributes", "openDataset"])

p("C20", "S3: acknowledged updates are stored and lost ones are reported",
  "With the S3 backend any history of dataset, attribute and removal operations that return without exception leaves the bucket in the state the history describes, whatever requests were lost, throttled, answered partially or had ambiguous outcomes, with any listing page size, and without touching objects of other keys sharing the prefix. Everything read back equals the in-memory model, also with several threads, through the parallel utilities and after the process was killed between two requests; a read-only handle never changes the bucket. This holds for containers below any prefix of the bucket and for the bucket itself, and each request goes to the endpoint and region, and with the credentials, that its own container was opened with, also when other containers with other settings are in use.",
  ["fault_sequences", "histories", "schedules"],
  "every sequence of request faults, page sizes and partial batch deletions over every operation history and worker interleaving",
  "The S3 backend is not built in the test setup; pagination, partial deletions and lost acknowledgements never occur in the tests.",
  [I+"s3/handle.hxx", I+"s3/store.hxx", I+"s3/attributes.hxx", I+"s3/factory.hxx"],
  [("outcome checks of put and delete", I+"s3/handle.hxx putObject/deletePrefix"), ("shared client cache", I+"s3/handle.hxx getSharedClient")],
  ["operations on S3 handles", "the simulated bucket"])

p("C21", "Variable-length n5 chunks round-trip and are never mistaken",
  "In n5 datasets any history of variable-length and ordinary chunk writes, rewrites and removals, with restarts and I/O faults, lets every chunk be read back with the kind, element count and values of its last acknowledged write; a variable-length write of no elements leaves no chunk. Reading a region with variable-length chunks, or overwriting only a part of one, is refused with an exception without changing or overrunning that chunk.",
  ["histories", "fault_sequences", "inputs"],
  "every history of both chunk kinds with lengths below and above the chunk size, with faults and restarts",
  "The tests write each variable-length chunk once with one length below the buffer size.",
  [I+"generic/dataset.hxx", I+"util/format_data.hxx", I+"filesystem/store.hxx", I+"multiarray/array_access.hxx"],
  [("chunk header", I+"util/format_data.hxx write_n5_header/read_n5_header"), ("header probes", I+"filesystem/store.hxx readVarlenFromHeader")],
  ["Dataset::writeChunk (varlen)", "Dataset::readChunk", "Dataset::checkVarlenChunk"])

p("C22", "Running out of threads or memory raises an exception",
  "When starting a worker thread or allocating memory fails at any point of any call (memory that the JSON library requests while it builds documents excepted), the call throws an exception or completes correctly; it never terminates the process, hangs, corrupts memory or leaves a chunk, shard or attribute document in a state that is neither old nor new. The same objects work normally afterwards.",
  ["fault_sequences", "schedules"],
  "every allocation and every thread start of every call as the one that fails, under any interleaving",
  "The tests never fail an allocation or a thread start.",
  [I+"util/threadpool.hxx", I+"multiarray/array_access.hxx", I+"generic/dataset.hxx", I+"generic/sharded_dataset.hxx"],
  [("worker start-up", I+"util/threadpool.hxx ThreadPool::init"), ("submission loop", I+"util/threadpool.hxx parallel_foreach_impl")],
  ["multiarray::readSubarray", "multiarray::writeSubarray", "ThreadPool"])

PY = "src/python/module/z5py/"; PL = "src/python/lib/"
p("C23", "A z5py file behaves like a tree of numpy arrays and dicts",
  "Whatever sequence of z5py calls a program makes, through any file, group or dataset object of a container (kept, newly opened or unpickled), reading returns what a tree of dicts holding numpy arrays would: numpy index expressions (integers, slices, ellipsis, negative positions; no steps) select the same elements, written arrays may have more or fewer singleton dimensions at their ends and no other differences in shape, read_direct and write_direct follow their selections and take everything without, a missing chunk reads as the fill value, attributes are what json would give back (with the encoder and decoder that are set), visititems stops at the first value it is given and returns it, and keys, in, len, visititems, shape, dtype, chunks, shards, compression and its options agree. A call outside the contract (out of bounds, a step, a wrong size or type, an existing or a missing name, arguments that contradict each other, a codec or codec option the format does not have, values json cannot express, other properties in require_dataset) raises and changes nothing. When a call fails because of the storage, or the process is killed in it, what it was storing is old or new chunk by chunk and everything else is as before; the same call works afterwards, and a half created or half removed object can be deleted.",
  ["inputs", "histories", "fault_sequences", "crash_points", "schedules", "configurations"],
  "every history of z5py calls over every container format, with every fault or kill inside any call and every scheduling of the worker threads",
  "The tests make one or two calls per object without any fault, and look at the result through the same object.",
  [PY+"dataset.py", PY+"group.py", PY+"file.py", PY+"attribute_manager.py", PY+"shape_utils.py", PL+"dataset.cxx", PL+"handles.cxx", PL+"attributes.cxx", PL+"factory.cxx"],
  [("index normalisation", PY+"shape_utils.py normalize_slices"), ("element type and layout of arrays handed to C++", PL+"dataset.cxx writePySubarray"), ("removal by name", PY+"group.py __delitem__"), ("reopening on unpickling", PY+"file.py _unpickle_file")],
  ["z5py.Dataset.__getitem__", "z5py.Dataset.__setitem__", "z5py.Group.create_dataset", "z5py.Group.require_dataset", "z5py.AttributeManager"])

p("C24", "File modes of z5py protect what is stored",
  "Opening a container with mode r or r+ never creates, removes or changes anything, and refuses a container that does not exist. a opens an existing container unchanged and creates a missing one. w- and x refuse an existing container and leave it unchanged. w empties exactly this container and no other one, whatever its name resembles. Through a file opened with r, and everything reached from it or unpickled from it, no call changes the store; each mutating call raises. The format of an existing container (n5, zarr v2 or v3) is recognised, kept for everything created in it, and asking for the other one is refused, as is a container on disk whose metadata names a version of its format that z5 does not know. This also holds when storage operations fail or the process is killed while opening; after an interrupted creation or truncation, opening with w gives an empty container.",
  ["histories", "fault_sequences", "crash_points", "configurations"],
  "every sequence of openings of several containers with every mode and argument, with every fault or kill while opening",
  "The tests open each mode once, without faults, and do not look at neighbouring containers.",
  [PY+"file.py", PY+"group.py", PY+"dataset.py", I+"util/file_mode.hxx", I+"filesystem/handle.hxx", PL+"util.cxx"],
  [("mode handling", PY+"file.py File.__init__"), ("format recognition", PY+"file.py infer_format, _check_version"), ("mode checks", I+"filesystem/handle.hxx")],
  ["z5py.File", "z5py.N5File", "z5py.ZarrFile", "pickle"])

p("C25", "Python threads can use z5py at the same time",
  "When several Python threads use one container, through shared or separate file and dataset objects, each working on regions, chunks and groups of its own, every call gives what it would give alone, exceptions arrive in the thread that made the call, all threads finish, and the final content is that of the calls done one after the other. While a call waits for storage, the interpreter lock is free: threads working on other objects go on.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of the calls of several Python threads (and of the worker threads these start) at the level of single memory accesses and interpreter switches, with storage errors, and with one call stalled at any of its storage operations",
  "The tests start no Python threads; whether the interpreter lock is held during a storage operation shows only when that operation does not return.",
  [PL+"dataset.cxx", PL+"handles.cxx", PL+"attributes.cxx", PL+"factory.cxx", PY+"dataset.py", I+"util/threadpool.hxx", I+"generic/sharded_dataset.hxx"],
  [("releasing the interpreter lock", PL+"dataset.cxx call_guard<gil_scoped_release>"), ("worker threads", I+"util/threadpool.hxx")],
  ["z5py.Dataset.__getitem__", "z5py.Dataset.__setitem__", "z5py.Dataset.write_chunk", "z5py.AttributeManager"])

p("C26", "Chunks and attribute documents behave like atomic registers",
  "However many threads read, write, erase and probe the same chunk (ordinary or variable-length, alone or in a shard, the latter through one dataset object), each call returns what it would return if the calls on that chunk had been made one at a time, each at some moment between its start and its end: reads never see a mixture, an older value than one already seen, or data nobody wrote. The same holds for reading, and for one writer at a time changing, the attributes of one node. A call that fails because of the storage has either happened completely or not at all. Writing regions that cover whole chunks and reading regions act chunk by chunk in the same way.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of the calls of several threads on the same chunk, shard or document at the level of single storage operations and memory accesses, with storage errors in any of them",
  "The tests never access one chunk from two threads.",
  [I+"filesystem/store.hxx", I+"s3/store.hxx", I+"generic/dataset.hxx", I+"generic/sharded_dataset.hxx", I+"filesystem/attributes.hxx"],
  [("replacement of a chunk file", I+"filesystem/store.hxx writeRaw"), ("exclusion of shard updates", I+"generic/sharded_dataset.hxx"), ("absent chunks while reading regions", I+"multiarray/array_access.hxx")],
  ["Dataset::writeChunk", "Dataset::readChunk", "Dataset::chunkExists", "Dataset::eraseChunk", "writeAttributes", "readAttributes"])

p("C27", "Threads can change different parts of one tree at the same time",
  "When several threads create, remove, open, list, probe and annotate groups and datasets of one container, each changing nodes of its own (also siblings below one parent), every call on a thread's own nodes gives what it would give alone, a listing or probe of a common parent reports every node that exists during the whole call and none that does not exist at any moment of it, no call fails because of what the others do to their nodes, and afterwards the tree is the one all calls together describe.",
  ["schedules", "histories"],
  "every interleaving of tree operations of several threads on sibling nodes",
  "The tests build and inspect trees with one thread.",
  [I+"filesystem/factory.hxx", I+"filesystem/handle.hxx", I+"filesystem/metadata.hxx", I+"s3/handle.hxx", I+"s3/metadata.hxx", I+"factory.hxx"],
  [("listing while entries vanish", I+"filesystem/handle.hxx keys"), ("creation of directories that another thread creates", I+"filesystem/handle.hxx create")],
  ["createDataset", "createGroup", "openDataset", "Dataset::remove", "Group::keys", "Group::isSubGroup"])

p("C28", "Damaged metadata is refused, never misread and never spreads",
  "When a metadata or attribute document is damaged - truncated, overwritten, with missing fields or values of the wrong kind, or with shapes that do not fit each other - every call that needs it raises an exception or works with what the document says; none crashes, hangs, accesses memory out of bounds, or accepts shapes that are no shapes or features that z5 does not support. A call that raises changes nothing. Updating attributes of a node with a damaged document never discards what is left of it, and all other nodes of the tree keep working and stay as they are.",
  ["inputs", "fault_sequences", "histories"],
  "every damage to every document of a tree, under every call made afterwards",
  "The tests open well formed metadata only.",
  [I+"metadata.hxx", I+"filesystem/metadata.hxx", I+"filesystem/attributes.hxx", I+"types/types.hxx", I+"factory.hxx"],
  [("parsing of metadata", I+"metadata.hxx DatasetMetadata::fromJson"), ("parsing of codecs", I+"types/types.hxx readV3CodecsFromJson"), ("rewriting of documents", I+"filesystem/attributes.hxx")],
  ["openDataset", "readAttributes", "writeAttributes", "DatasetMetadata::fromJson"])

p("C29", "A name addresses one object, inside of its container",
  "Names of groups and datasets are resolved inside of the group they are given to: leading, trailing and repeated slashes and '.' segments do not matter, so that all spellings of a name address the same object, in every call of the C++ and the Python API and in both backends. No call given any name, path or handle of a container creates, changes, finds or removes anything outside of the container's directory (or key prefix); a name with a '..' segment is refused. In z5py, creating an object with a nested name creates the groups in between as groups that can be opened, listed and annotated like any other, the object's name is its plain absolute path whichever way it was reached, and the name of a group itself (empty, '/' or '.') never removes or replaces it.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every name, from every group, in every call, over every history and every I/O fault",
  "The tests use plain names, mostly of one segment, and look only at what they created.",
  [I+"handle.hxx", I+"filesystem/handle.hxx", I+"s3/handle.hxx", I+"factory.hxx", "src/python/module/z5py/group.py"],
  [("keys relative to a group", I+"handle.hxx relativeKey"), ("paths of handles", I+"filesystem/handle.hxx Group, Dataset"), ("object keys of handles", I+"s3/handle.hxx"), ("groups in between", "src/python/module/z5py/group.py _require_parent")],
  ["createGroup", "createDataset", "openDataset", "isSubGroup", "handle::Group::in", "handle::Group::remove", "z5py.Group"])

p("C31", "A z5py container in a bucket behaves like one on disk",
  "Everything z5py offers on the filesystem works the same through z5py.S3File: reading, writing and indexing of datasets, chunk and region access, attributes, creation, require_*, removal, iteration and visiting of groups, names, modes ('r', 'r+', 'a', 'w', 'w-'), pickling of groups and datasets, and use from several Python threads, with n_threads > 1 in each. A request that fails raises a Python exception and never passes for success; what was acknowledged stays readable from any other file object, also after the process dies between any two requests; nothing outside of the container's key prefix is created, changed or removed; each request goes to the endpoint and region and with the credentials its container was opened with, also through unpickled objects and with other containers open; a thread whose request is outstanding does not stop the other Python threads.",
  ["inputs", "histories", "schedules", "crash_points", "fault_sequences"],
  "every history of z5py calls, every interleaving of threads, every request at which the service fails or the process dies, every page size of listings",
  "The tests of the repository never run the S3 code: it is not even compiled by the default build.",
  ["src/python/module/z5py/file.py", "src/python/module/z5py/group.py", "src/python/lib/dataset.cxx", "src/python/lib/handles.cxx", I+"s3/handle.hxx", I+"s3/dataset.hxx"],
  [("modes and creation of the container", "src/python/module/z5py/file.py S3File"), ("bindings of S3 handles", "src/python/lib/handles.cxx"), ("reads and writes", I+"s3/dataset.hxx"), ("interpreter lock while requests are outstanding", "src/python/lib/dataset.cxx")],
  ["z5py.S3File", "z5py.Group", "z5py.Dataset"])

p("C30", "Stored bytes follow the n5 and zarr specifications",
  "Everything z5 writes can be read by other n5 and zarr implementations and the other way round.",
  ["inputs", "configurations"], "every configuration and content",
  "Sampled by interoperability tests only.",
  [I+"util/format_data.hxx", I+"metadata.hxx"], [("encoders", I+"util/format_data.hxx")])
p("C32", "Codec parameters survive the metadata round trip",
  "Every valid set of compression options is written to and read from metadata unchanged.",
  ["inputs", "configurations"], "every codec and option value", "Sampled by examples only.",
  [I+"types/types.hxx", I+"metadata.hxx"], [("option conversion", I+"types/types.hxx")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
