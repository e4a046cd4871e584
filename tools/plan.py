"""Which scenarios decide which property, and for how long."""
TECHNIQUE = 'deterministic simulation with fault injection'
REAL = ['all of z5 (headers of /repo/include/z5, compiled with scheduling instrumentation)', 'libblosc, zlib, libdeflate, bzip2, xz, lz4, zstd', 'nlohmann::json', 'libstdc++ containers, streams and std::filesystem', 'z5 multiarray and region code']
STUB = ['operating system files and directories (in-memory file system behind the libc calls)', 'threads, mutexes, condition variables (scheduled by the simulator behind the pthread calls)', 'memory allocator (poisoning, failure injection, fences)', 'clock (virtual)']
ASSUME = ['memory accesses interleave sequentially consistently', 'a killed process loses nothing the operating system had accepted; power failure (loss of unsynced pages) is not modelled',
          'sampling: seeds explored, not all']
RULE = 'Each evaluation is one simulated run, fully determined by its seed: the seed draws the workload (formats, shapes, types, codecs, operations, thread counts), the schedule and the faults. A run is counted as distinct and non-trivial when the hash over its operations, results, scheduling decisions and fault decisions differs from every other run and it performed operations.'
S, S3, PY, PYS3 = 'z5sim', 'z5sim-s3', 'z5sim-py', 'z5sim-pys3'
REALPY = ['z5py (Python sources of /repo/src/python/module) and its bindings (/repo/src/python/lib, compiled with scheduling instrumentation)', 'CPython with its interpreter lock, numpy, nanobind'] + REAL
STUB3 = ['the AWS SDK and the S3 service behind it (strongly consistent keys, paged listings, batch deletion; requests that time out before or after they took effect, are throttled, refused, reset, answered short or in part)'] + STUB[1:]
PLAN = {
    'C01': {'quick': 36, 'runs': [(S, 'data-model', 4), (S, 'data-model-big', 1), (S, 'data-model-huge', 1), (S, 'request-places', 0.4), (S3, 's3-data-model', 0.8), (S3, 's3-data-model-huge', 0.3), (PY, 'py-data', 1)], 'real': REALPY, 'stub': STUB3},
    'C02': {'quick': 36, 'runs': [(S, 'concurrent', 4), (S3, 's3-users', 1), (PY, 'py-threads', 1)], 'real': REALPY, 'stub': STUB3},
    'C03': {'quick': 36, 'runs': [(S, 'acknowledged', 4), (S, 'too-large', 0.1), (S3, 's3-acknowledged', 0.8), (PY, 'py-fault', 0.8)], 'real': REALPY, 'stub': STUB3},
    'C04': {'quick': 36, 'runs': [(S, 'failed-write', 4), (S3, 's3-failed-write', 0.8), (PY, 'py-fault', 0.8)], 'real': REALPY, 'stub': STUB3},
    'C05': {'quick': 36, 'runs': [(S, 'crash', 4), (S3, 's3-crash', 0.8), (PY, 'py-crash', 0.9)], 'real': REALPY, 'stub': STUB3},
    'C06': {'quick': 36, 'runs': [(S, 'read-fault', 4), (S3, 's3-read-fault', 0.8), (PY, 'py-fault', 0.8)], 'real': REALPY, 'stub': STUB3},
    'C07': {'quick': 60, 'runs': [(S, 'damage', 4), (S3, 's3-damage', 1)], 'stub': STUB3},
    'C08': {'quick': 32, 'runs': [(S, 'shard-history', 2), (S, 'shard-threads', 2), (S3, 's3-shards', 0.7)], 'stub': STUB3},
    'C09': {'runs': [(S, 'pool', 3), (S, 'pool-faults', 1)]},
    'C10': {'runs': [(S, 'for-each', 1)]},
    'C11': {'quick': 32, 'runs': [(S, 'utilities', 4), (S3, 's3-utilities', 1)], 'stub': STUB3},
    'C12': {'quick': 40, 'runs': [(S, 'progress', 3), (S, 'pool-faults', 1), (S3, 's3-progress', 0.7), (PY, 'py-threads', 0.7)], 'real': REALPY, 'stub': STUB3},
    'C13': {'quick': 36, 'runs': [(S, 'attributes', 4), (S3, 's3-attributes', 0.8), (PY, 'py-attributes', 0.9)], 'real': REALPY, 'stub': STUB3},
    'C14': {'quick': 36, 'runs': [(S, 'metadata', 3), (S, 'moved', 1), (S, 'documents', 0.4), (S3, 's3-metadata', 0.5), (S3, 's3-moved', 0.5), (PY, 'py-hierarchy', 0.6)], 'real': REALPY, 'stub': STUB3},
    'C15': {'quick': 36, 'runs': [(S, 'read-only', 4), (S3, 's3-read-only', 1), (PY, 'py-modes', 1)], 'real': REALPY, 'stub': STUB3},
    'C16': {'quick': 36, 'runs': [(S, 'creation', 4), (S3, 's3-creation', 0.8), (PY, 'py-hierarchy', 0.9)], 'real': REALPY, 'stub': STUB3},
    'C17': {'quick': 36, 'runs': [(S, 'removal', 4), (S3, 's3-removal', 0.8), (PY, 'py-hierarchy', 0.9)], 'real': REALPY, 'stub': STUB3},
    'C18': {'quick': 36, 'runs': [(S, 'listing', 4), (S3, 's3-listing', 0.8), (PY, 'py-hierarchy', 0.9)], 'real': REALPY, 'stub': STUB3},
    'C19': {'runs': [(S3, 's3-fault', 1)], 'stub': STUB3},
    'C20': {'quick': 45, 'runs': [(S3, 's3-history', 6), (S3, 's3-users', 2), (S3, 's3-utilities', 2), (S3, 's3-read-only', 2), (S3, 's3-moved', 1)], 'stub': STUB3},
    'C21': {'runs': [(S, 'varlen', 1)]},
    'C23': {'runs': [(PY, 'py-model', 2), (PY, 'py-fault', 1), (PY, 'py-crash', 1)], 'real': REALPY},
    'C24': {'runs': [(PY, 'py-modes', 1)], 'real': REALPY},
    'C25': {'runs': [(PY, 'py-threads', 1)], 'real': REALPY},
    'C26': {'runs': [(S, 'registers', 2), (S3, 's3-registers', 1)], 'how': 'seeded histories of concurrent callers, checked for linearizability'},
    'C27': {'runs': [(S, 'tree-users', 2), (S3, 's3-tree-users', 1)]},
    'C28': {'runs': [(S, 'documents', 3), (S3, 's3-documents', 2)], 'stub': STUB3, 'how': 'seeded damage to metadata and attribute documents'},
    'C29': {'quick': 32, 'runs': [(S, 'names', 2), (S3, 's3-names', 1), (PY, 'py-names', 2)], 'how': 'seeded histories over a tree of names', 'real': REALPY},
    'C31': {'quick': 40, 'runs': [(PYS3, 'py-s3-model', 3), (PYS3, 'py-s3-fault', 2), (PYS3, 'py-s3-crash', 2), (PYS3, 'py-s3-modes', 2), (PYS3, 'py-s3-names', 1), (PYS3, 'py-s3-threads', 3)], 'real': REALPY, 'stub': STUB3},
    'C22': {'quick': 45, 'runs': [(S, 'no-memory', 3), (S, 'no-memory-utilities', 1.5), (S, 'for-each', 0.5), (S, 'pool-faults', 1)]},
}
