#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree into /verif/build (git-ignored).

Objects are cached under a hash of everything they are made from, so a changed header in /repo
always leads to a rebuild.  z5 code is compiled with -fsanitize=thread *instrumentation* only: the
calls it emits before memory accesses and atomics go to sim/rt/tsan_rt.cc, i.e. to the scheduler;
libtsan itself is never linked."""
import concurrent.futures, hashlib, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('Z5_REPO', '/repo')
SIM = os.path.join(ROOT, 'sim')
OUT = os.environ.get('Z5SIM_BUILD', os.path.join(ROOT, 'build'))
CXX = 'g++'
NB = '/opt/z5env/lib/python3.12/site-packages/nanobind'
PYINC = '/usr/include/python3.12'
CODECS = '-DWITH_BLOSC -DWITH_ZLIB -DWITH_LIBDEFLATE -DWITH_BZIP2 -DWITH_XZ -DWITH_LZ4 -DWITH_ZSTD'.split()
BASE = ['-DJSON_ASSERT(x)=(void)0', '-std=c++20', '-g0', '-fno-omit-frame-pointer', '-w']
INST = BASE + ['-O1', '-fsanitize=thread',] + CODECS
PLAIN = BASE + ['-O2']
LIBS = '-lblosc -ldeflate -lz -lbz2 -llzma -llz4 -lzstd -ldl -lpthread -rdynamic'.split()

def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, 'rb').read()); continue
        for p, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(p, f)
                h.update(q[len(d):].encode()); h.update(open(q, 'rb').read())
    return h.hexdigest()

def targets():
    inc = os.path.join(REPO, 'include')
    rt = [f for f in sorted(os.listdir(SIM + '/rt')) if f.endswith('.cc')]
    api = [f for f in sorted(os.listdir(SIM + '/api')) if f.endswith('.cc')]
    scn = [f for f in sorted(os.listdir(SIM + '/scn')) if f.endswith('.cc')]
    jobs = []   # (name, src, flags, deps)
    rth, apih, scnh = SIM + '/rt', SIM + '/api', SIM + '/scn'
    heads = lambda d: [os.path.join(d, f) for f in sorted(os.listdir(d)) if not f.endswith('.cc')]
    zinc = ['-I', inc, '-I', SIM]
    for f in rt:
        jobs.append(('rt_' + f, rth + '/' + f, PLAIN + ['-I', SIM], heads(rth)))
    for f in api:
        if f == 'enc.cc':
            jobs.append(('api_' + f, apih + '/' + f, PLAIN + ['-I', SIM], heads(apih)))
        else:
            jobs.append(('api_' + f, apih + '/' + f, INST + zinc, heads(apih) + [inc]))
    for f in scn:
        if f.startswith('i_'):      # scenario part that itself includes z5 headers: instrumented
            jobs.append(('scn_' + f, scnh + '/' + f, INST + zinc, heads(scnh) + heads(rth) + heads(apih) + [inc]))
        else:
            jobs.append(('scn_' + f, scnh + '/' + f, PLAIN + ['-I', SIM], heads(scnh) + heads(rth) + heads(apih)))
    fs = [j for j in jobs if not j[0].startswith('scn_s3')]
    bins = {'z5sim': fs}
    s3 = os.path.join(SIM, 's3')
    if os.path.isdir(s3):
        aws = ['-I', SIM + '/fakeaws']
        sj = [j for j in jobs if j[0].startswith('rt_') or j[0] in ('api_enc.cc', 'scn_world.cc', 'scn_profiles.cc', 'scn_fs_misc.cc', 'scn_fs_shared.cc', 'scn_fs_names.cc', 'scn_fs_docs.cc')]
        for f in api:
            if f != 'enc.cc':
                sj.append(('s3api_' + f, apih + '/' + f, INST + ['-DWITH_S3'] + aws + zinc, heads(apih) + [inc, SIM + '/fakeaws']))
        for f in sorted(os.listdir(s3)):
            if f.endswith('.cc'):
                sj.append(('s3_' + f, s3 + '/' + f, PLAIN + ['-I', SIM] + aws, heads(s3) + heads(scnh) + heads(rth) + heads(apih) + [SIM + '/fakeaws']))
        bins['z5sim-s3'] = sj
    py = os.path.join(SIM, 'py')
    lib = os.path.join(REPO, 'src/python/lib')
    nbi = ['-isystem', NB + '/include', '-isystem', NB + '/ext/robin_map/include', '-isystem', PYINC]
    pj = [j for j in jobs if j[0].startswith('rt_')]
    pj.append(('nb_combined', NB + '/src/nb_combined.cpp', PLAIN + ['-fno-strict-aliasing', '-fvisibility=hidden'] + nbi, []))
    for f in sorted(os.listdir(lib)):
        if f.endswith('.cxx'):
            pj.append(('py_' + f, lib + '/' + f, INST + ['-fvisibility=hidden', '-I', inc] + nbi, [lib, inc]))
    pj.append(('py_embed', py + '/embed.cc', PLAIN + ['-I', SIM, '-DZ5SIM_PYDIR="%s"' % py, '-isystem', PYINC], heads(rth)))
    bins['z5sim-py'] = pj
    if os.path.isdir(s3):           # z5py on the simulated object store
        qj = [j for j in jobs if j[0].startswith('rt_')] + [j for j in sj if j[0] == 's3_store.cc'] + [j for j in pj if j[0] == 'nb_combined']
        for f in sorted(os.listdir(lib)):
            if f.endswith('.cxx'):
                qj.append(('pys3_' + f, lib + '/' + f, INST + ['-DWITH_S3', '-fvisibility=hidden', '-I', inc] + aws + nbi, [lib, inc, SIM + '/fakeaws']))
        qj.append(('pys3_embed', py + '/embed.cc', PLAIN + ['-DWITH_S3', '-I', SIM] + aws + ['-DZ5SIM_PYDIR="%s"' % py, '-isystem', PYINC], heads(rth) + heads(s3) + [SIM + '/fakeaws']))
        bins['z5sim-pys3'] = qj
    return bins

def build(which=('z5sim',), verbose=False, jobs=8):
    os.makedirs(OUT, exist_ok=True)
    bins = targets()
    need, cache = {}, {}
    def th(d):
        if d not in cache: cache[d] = tree_hash(d)
        return cache[d]
    result = {}
    for b in which:
        objs = []
        for name, src, flags, deps in bins[b]:
            key = hashlib.sha256(repr((th(src), [th(d) for d in deps], flags)).encode()).hexdigest()[:20]
            o = os.path.join(OUT, name.replace('.cc', '') + '-' + key + '.o')
            objs.append(o)
            if not os.path.exists(o): need[o] = (src, flags)
        key = hashlib.sha256(repr(objs).encode()).hexdigest()[:16]
        result[b] = (os.path.join(OUT, b + '-' + key), objs)
    def one(o):
        src, flags = need[o]
        tmp = '%s.tmp%d' % (o, os.getpid())
        p = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return (o, src, p.stdout.decode(errors='replace'))
        os.replace(tmp, o)
        return None
    # the expensive ones first
    order = sorted(need, key=lambda o: (0 if 'core' in o else 1 if 'rw_' in o else 2))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        errs = [e for e in ex.map(one, order) if e]
    if errs:
        for e in errs[:2]: sys.stderr.write('cannot compile %s\n%s\n' % (e[1], e[2][:4000]))
        raise SystemExit(2)
    for b, (path, objs) in result.items():
        if not os.path.exists(path):
            tmp = path + '.tmp%d' % os.getpid()
            subprocess.check_call([CXX, '-o', tmp] + objs + LIBS + (['-lpython3.12'] if b in ('z5sim-py', 'z5sim-pys3') else []))
            os.replace(tmp, path)
    return {b: r[0] for b, r in result.items()}

if __name__ == '__main__':
    w = sys.argv[1:] or ['z5sim']
    for b, p in build(w).items(): print(p)
