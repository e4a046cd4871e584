"""Random histories of z5py operations against numpy arrays and dicts (runs inside the simulator).

Every operation draws its parameters from its own random stream, so that leaving others out while a
report is minimised does not change it."""
import copy, json, pickle, threading, traceback
import numpy as np
import z5py
from z5py import _z5py
import _sim

def explain(e):
    return ''.join(traceback.format_exception(e))[-3500:]

class R:
    """splitmix64"""
    def __init__(self, s): self.s = s & (2**64 - 1)
    def next(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & (2**64 - 1)
        z = self.s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & (2**64 - 1)
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & (2**64 - 1)
        return z ^ (z >> 31)
    def below(self, n): return self.next() % n if n else 0
    def range(self, a, b): return a + self.below(b - a + 1)
    def chance(self, p): return (self.next() >> 11) / 9007199254740992.0 < p
    def pick(self, l): return l[self.below(len(l))]

def bad(cls, msg): _sim.fail(cls, msg)
def short(e): return ('%s: %s' % (type(e).__name__, e))[:300]

DTYPES = ['uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'float32', 'float64']
IO = 'EIO,ENOSPC,EACCES,EMFILE,EINTR,short-transfer,close-error-with-loss,ESTALE'
COMP = {'n5': ['raw', 'blosc', 'gzip', 'bzip2', 'xz', 'lz4', 'zstd'], 'v2': ['raw', 'blosc', 'zlib', 'bzip2', 'gzip', 'zstd'],
        'v3': ['raw', 'gzip', 'blosc', 'zstd']}
RESERVED = {'n5': ['dimensions', 'blockSize', 'dataType', 'compression'], 'v2': [], 'v3': []}

# ------------------------------------------------------------------ model
class G:
    def __init__(self): self.kids = {}; self.attrs = {}
class D:
    def __init__(self): self.attrs = {}; self.arr = None; self.fill = 0; self.chunks = None; self.shards = None; self.meta = None; self.var = None
    def grid(self): return tuple(-(-s // c) for s, c in zip(self.arr.shape, self.chunks))
    def chunk(self, i): return tuple(slice(j * c, min((j + 1) * c, s)) for j, c, s in zip(i, self.chunks, self.arr.shape))

def find(m, path):
    for p in path: m = m.kids[p]
    return m
def nodes(m, path=()):
    yield path, m
    if isinstance(m, G):
        for k in sorted(m.kids): yield from nodes(m.kids[k], path + (k,))
def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
def like(a, b): return type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and type(a) is type(b) and a == b

class Refused(Exception): pass

# ------------------------------------------------------------------ drawing
def drawArray(r, dtype, shape, nozero=False):
    n = int(np.prod(shape)) if shape else 1
    dt = np.dtype(dtype)
    style = r.below(4)
    if style == 0 and not nozero: v = [0] * n
    elif style == 1: v = [r.range(1, 100)] * n
    elif dt.kind == 'f': v = [r.pick([0.0, 1.5, -2.25, float('nan'), float('inf'), 3e30]) if r.chance(.3) else (r.below(2000) - 1000) / 8 for _ in range(n)]
    else:
        hi = np.iinfo(dt).max; lo = np.iinfo(dt).min
        v = [r.pick([0, 1, hi, lo, hi - 1]) if r.chance(.3) else r.below(100) for _ in range(n)]
    return np.array(v, dtype=dt).reshape(shape)
def disguise(r, a):
    """the same values in another memory layout"""
    s = r.below(7)
    if s == 0: return np.asfortranarray(a)
    if s == 1 and a.ndim: return np.repeat(a, 2, axis=-1)[..., ::2]
    if s == 2 and a.ndim: return np.ascontiguousarray(a[::-1])[::-1]
    if s == 3: b = a.copy(); b.flags.writeable = False; return b
    return a
def drawIndex(r, shape):
    """an index expression with its meaning in numpy; steps and clipped negative starts are not supported by z5py"""
    out = []; ell = r.chance(.35); n = len(shape); where = r.below(n + 1)
    k = n if not ell and r.chance(.7) else r.below(n + 1)
    items = []
    for d in range(k): items.append(None)
    pos = where if ell and where <= k else (k if ell else None)
    # which axis each item addresses
    axes = list(range(k)) if pos is None else list(range(pos)) + list(range(n - (k - pos), n))
    for d in axes:
        s = shape[d]; t = r.below(8)
        if t == 0: out.append(slice(None))
        elif t == 1: i = r.below(s); out.append(np.int64(i) if r.chance(.2) else i)
        elif t == 2: out.append(-1 - r.below(s))
        elif t == 3: a = r.below(s); out.append(slice(a, a + 1 + r.below(s - a)))
        elif t == 4: a = r.below(s); out.append(slice(a - s, None))
        elif t == 5: out.append(slice(None, r.range(0, s + 3)))
        elif t == 6: a = r.below(s); out.append(slice(a, r.range(-s, s + 2)))
        else: a = r.below(s); b = a + 1 + r.below(s - a); out.append(slice(a - s, b - s if b < s else None))
    if pos is not None: out.insert(pos, Ellipsis)
    if len(out) == 1 and r.chance(.5): return out[0]
    return tuple(out)
def drawJson(r, depth=0):
    t = r.below(9 if depth < 2 else 6)
    if t == 0: return r.below(1000) - 500
    if t == 1: return r.pick(['', 'x', 'naïve ☃', 'a/b', '"q"\\', 'long ' * 20])
    if t == 2: return r.pick([0.5, 1e-7, 1e300, -2.25, 123456.789])
    if t == 3: return r.chance(.5)
    if t == 4: return r.pick([2**53 + 1, -2**62, 2**63 - 1, 2**64 - 1])
    if t == 5: return None if r.chance(.5) else []
    if t in (6, 7): return [drawJson(r, depth + 1) for _ in range(r.below(4))]
    return {r.pick(['k', 'm', 'shape', 'ä']): drawJson(r, depth + 1) for _ in range(r.below(3))}
class Encoder(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, complex): return {'re': o.real, 'im': o.imag}
        if isinstance(o, np.integer): return int(o)
        return super().default(o)
class Decoder(json.JSONDecoder):
    def __init__(self, *a, **k): super().__init__(*a, object_hook=lambda x: complex(x['re'], x['im']) if set(x) == {'re', 'im'} else x, **k)
KEYS = ['a', 'b', 'offset', 'resolution', 'unité', 'x.y', 'attributes']
NAMES = ['a', 'b', 'ab', 'data', 'data2', 'g', '0', 'c', 'sim']
def spell(r, name):
    """another spelling of a name; absolute only where the simulator serves what a wrong answer would touch"""
    l = name.split('/')
    s = l[0]
    for x in l[1:]: s += r.pick(['/', '/', '/', '/', '//', '/./']) + x
    if l[0] == 'sim' and r.chance(.6): s = r.pick(['/', '/', '//']) + s
    elif r.chance(.06): s = './' + s
    return s + ('/' if r.chance(.08) else '')

# where the containers are: a directory, or (with the simulated object store) a bucket
ROOT = '/sim'
NET = 'net-timeout-before,net-timeout-after-apply,http-503,http-403,net-truncated-body,net-reset,net-partial'
def inBucket(): return ROOT == '/s3'
# in buckets: each container is reached with settings of its own
CONN = None
def connection(path):
    if CONN is None: return {}
    e, g, n, k, s = CONN
    if not path.startswith(ROOT + '/c'):
        i = sum(path.encode()) % 5
        e, g, n, k, s = (None if e else 'http://other.example', g, n, k, s) if i == 0 else (e, g + 'x', n, k, s) if i == 1 else (e, g, not n, k, s) if i == 2 else (e, g, n, None if k else 'other', s) if i == 3 else (e, g, n, k, (s or '') + 'x')
    _sim.account(path, e or '', g, int(n), k or '', s or '')
    return dict(endpoint_url=e, region=g, anon=n, access_key=k, secret_key=s)
def openAt(path, mode, zarr_format=2, dimension_separator='.'):
    if inBucket(): return z5py.S3File('bkt', path[4:], mode, zarr_format=zarr_format, dimension_separator=dimension_separator, **connection(path))
    return z5py.File(path, mode, zarr_format=zarr_format, dimension_separator=dimension_separator)

class Container:
    def __init__(self, r, kind=None, base=None):
        if base is None: base = ROOT + '/c'
        self.kind = kind or r.pick(['n5', 'n5', 'v2', 'v2', 'v3', 'v3'] if not inBucket() else ['v2', 'v3'])
        self.sep = r.pick(['.', '/']) if self.kind == 'v2' else '.'
        self.path = base + (r.pick(['.n5', '']) if self.kind == 'n5' else r.pick(['.zarr', '.zr']))
    def open(self, mode, cls=None):
        if inBucket(): return openAt(self.path, mode, 3 if self.kind == 'v3' else 2, self.sep)
        if self.kind == 'n5': return z5py.File(self.path, mode) if cls is None else cls(self.path, mode)
        v = 3 if self.kind == 'v3' else 2
        return z5py.File(self.path, mode, dimension_separator=self.sep, zarr_format=v) if cls is None else cls(self.path, mode, dimension_separator=self.sep, zarr_format=v)
    def fresh(self):
        m = G()
        if self.kind == 'n5': m.attrs = {'n5': '2.0.0'}
        return m
    def create_args(self, r, var=False):
        nd = 1 if var else r.pick([1, 1, 2, 2, 3, 4])
        hi = {1: 24, 2: 9, 3: 5, 4: 3}[nd]
        shape = tuple(r.range(1, hi) for _ in range(nd))
        kw = {'shape': shape, 'dtype': r.pick(DTYPES)}
        if r.chance(.9): kw['chunks'] = tuple(r.range(1, max(1, s)) if r.chance(.8) else s + r.below(3) for s in shape)
        if r.chance(.8): kw['compression'] = r.pick(COMP[self.kind])
        c = kw.get('compression')
        if c in ('gzip', 'zlib', 'bzip2', 'xz', 'lz4', 'zstd') and r.chance(.4): kw['level'] = r.range(1, 9)
        if self.kind != 'n5' and r.chance(.6):
            f = np.dtype(kw['dtype']).kind == 'f'
            kw['fillvalue'] = r.pick([0, 1, 7, 100] + ([float('nan'), 0.5] if f else []))
        if r.chance(.5): kw['n_threads'] = r.range(1, 4)
        if self.kind == 'v3':
            ch = kw.get('chunks')
            if ch and r.chance(.5): kw['shards'] = tuple(min(c, s) * r.range(1, 3) for c, s in zip(ch, shape))
            if r.chance(.3): kw['chunk_key_encoding'] = 'v2'
        return kw

def newData(kw, data=None):
    d = D()
    d.fill = np.array([kw.get('fillvalue', 0)]).astype(kw['dtype'])[0]
    d.arr = np.full(kw['shape'], d.fill, dtype=kw['dtype'])
    if data is not None: d.arr[...] = data
    return d
def metaOf(ds):
    return (tuple(ds.shape), tuple(ds.chunks), ds.shards, str(ds.dtype), ds.compression, json.dumps(ds.compression_opts, sort_keys=True), ds.is_zarr, ds.ndim, ds.size,
            tuple(ds.chunks_per_dimension), ds.number_of_chunks, len(ds))

# ------------------------------------------------------------------ the engine
class Op:
    text = ''; kind = None; path = (); refuse = None; reads = False
    chunks = None                    # data: ids of the chunks that may change
    def run(self, get): pass         # get(path) gives an object
    def apply(self, m): pass         # on the model
    def check(self, res, m): pass    # of what was returned, model before

class World:
    def __init__(self, faults='', pFault=0, crash=False, ops=(4, 14)):
        self.r = R(_sim.rand(0))
        self.c = Container(self.r)
        self.m = None
        self.crash = crash
        self.faulty = _sim.faults(faults, pFault) if faults else False
        self.live = {}
        self.f = None
        self.n = self.r.range(*ops)
        self.index = 0
        _sim.salt(self.r.next())
    # ---------------------------------------------------- objects
    def fresh(self, mode='r+'):
        f = self.c.open(mode)
        return lambda p: f if not p else f['/'.join(p)]
    def get(self, r):
        """a way to get at objects, through kept ones, the kept file or a new file"""
        s = r.below(4)
        f = self.f
        def g(p):
            if s == 0: return self.fresh()(p)
            if s in (1, 2) and p in self.live: return self.live[p]
            o = f
            if not p: return f
            if s == 2:
                for k in p: o = o[spell(r, k)]
            else: o = f[spell(r, '/'.join(p))]
            checkName(o, p, 'opened')
            self.live[p] = o
            return o
        return g
    def forget(self, p): self.live = {k: v for k, v in self.live.items() if k[:len(p)] != p}
    # ---------------------------------------------------- observation
    def observe(self, op=None, what='', deep=True):
        """compares the store, seen by a new handle, with the model (the operation in flight may or may not have happened);
        returns the model as observed"""
        _sim.quiet(1)
        try:
            old = self.m
            if self.around and self.outside() != self.around: bad('outside-changed', '%s: outside of the container there is %r' % (what, self.outside()[0]))
            new = copy.deepcopy(old)
            if op is not None: op.apply(new)
            try: f = self.c.open('r+')
            except Exception as e: bad('does-not-open', '%s: opening the file: %s' % (what, explain(e)[-1500:]))
            return self.walk(f, old, new, (), op, what)
        finally: _sim.quiet(0)
    around = None
    def outside(self):
        me = self.c.path[len(ROOT):]
        return [p for p in _sim.list(ROOT) if p != me and not p.startswith(me + '/')], _sim.digest(ROOT + '/x')
    def walk(self, h, old, new, path, op, what):
        _sim.oracle(1)
        m = G()
        name = '/' + '/'.join(path)
        m.attrs = self.seeAttrs(h, old, new, path, op, what)
        try: keys = list(h.keys()); n = len(h)
        except Exception as e: bad('listing-failed', '%s: %s: %s' % (what, name, explain(e)[-1500:]))
        if len(set(keys)) != len(keys) or n != len(keys): bad('wrong-listing', '%s: %s lists %r' % (what, name, keys))
        loose = None
        if op is not None and op.kind in ('create', 'remove') and len(op.path) > len(path) and op.path[:len(path)] == path:
            k = op.path[len(path)]
            if op.kind == 'remove' and len(op.path) == len(path) + 1 and k in old.kids: loose = k
            if op.kind == 'create' and k not in old.kids: loose = k
        if op is not None and op.kind == 'create' and loose is None and len(op.path) > len(path) and op.path[:len(path)] != path: loose = None
        want = sorted(k for k in old.kids if k != loose)
        if sorted(k for k in keys if k != loose) != want: bad('wrong-listing', '%s: %s lists %r, expected %r' % (what, name, sorted(keys), want))
        for k in want:
            if (k in h) is not True: bad('wrong-membership', '%s: %s does not contain %s' % (what, name, k))
            m.kids[k] = self.child(h, k, old.kids[k], new.kids.get(k, old.kids[k]), path + (k,), op, what)
        if loose is not None:
            q = self.c.path + ''.join('/' + p for p in path) + '/' + loose
            there = loose in keys
            if op.kind == 'create':
                ok = None
                if there:
                    ok = self.created(h, loose, new.kids[loose], path + (loose,), op, what)
                if ok is not None: m.kids[loose] = ok
                elif there: self.clear(h, loose, q, what)
                else: _sim.rm(q)
            else:
                if there or _sim.exists(q):
                    if there: self.clear(h, loose, q, what)
                    else: _sim.rm(q)
        return m
    def clear(self, h, k, q, what):
        """an object of which only a part is there can be removed"""
        try: del h[k]
        except Exception as e: bad('removal-not-repeatable', '%s: removing %s: %s' % (what, q, explain(e)[-1500:]))
        if _sim.exists(q) or k in h: bad('removal-incomplete', '%s: %s removed, there remain %r' % (what, q, _sim.list(q)))
    def child(self, h, k, old, new, path, op, what):
        try: o = h[k]
        except Exception as e: bad('does-not-open', '%s: %s: %s' % (what, '/'.join(path), explain(e)[-1500:]))
        if isinstance(old, G) != isinstance(o, z5py.Group): bad('wrong-kind', '%s: %s opens as %s' % (what, '/'.join(path), type(o).__name__))
        if h.is_sub_group(k) != isinstance(old, G): bad('wrong-kind', '%s: is_sub_group(%s)' % (what, '/'.join(path)))
        return self.walk(o, old, new, path, op, what) if isinstance(old, G) else self.data(o, old, new, path, op, what)
    def seeAttrs(self, o, old, new, path, op, what):
        try: a = dict(o.attrs)
        except Exception as e: bad('attributes-unreadable', '%s: %s: %s' % (what, '/'.join(path), explain(e)[-1500:]))
        if a == old.attrs: return a
        if op is not None and a == new.attrs and (op.kind == 'attrs' and op.path == path): return a
        bad('wrong-attributes', '%s: /%s has %r, expected %r' % (what, '/'.join(path), a, old.attrs))
    def data(self, o, old, new, path, op, what, creating=False):
        _sim.oracle(1)
        d = copy.copy(old)
        if old.meta is not None and metaOf(o) != old.meta: bad('metadata-changed', '%s: /%s reports %r, expected %r' % (what, '/'.join(path), metaOf(o), old.meta))
        d.attrs = self.seeAttrs(o, old, new, path, op, what)
        mine = op is not None and (op.kind == 'data' and op.path == path or creating)
        if old.var is not None:
            d.var = {}
            for i in range(old.grid()[0]):
                try: c = o.read_chunk((i,))
                except Exception as e: bad('read-failed', '%s: chunk %d of /%s: %s' % (what, i, '/'.join(path), explain(e)[-1500:]))
                cand = [old.var.get(i)] + ([new.var.get(i)] if mine else [])
                for x in cand:
                    if x is None and c is None: break
                    if x is not None and c is not None and same(x, c): d.var[i] = x; break
                else: bad('wrong-data', '%s: chunk %d of /%s is %r, expected one of %r' % (what, i, '/'.join(path), c, cand))
            return d
        try: a = o[...]
        except Exception as e: bad('read-failed', '%s: /%s: %s' % (what, '/'.join(path), explain(e)[-1500:]))
        if same(a, old.arr): return d
        d.arr = a
        if a.shape != old.arr.shape or a.dtype != old.arr.dtype: bad('wrong-data', '%s: /%s reads as %s %s' % (what, '/'.join(path), a.shape, a.dtype))
        for i in np.ndindex(*old.grid()):
            s = old.chunk(i)
            if same(a[s], old.arr[s]): continue
            if mine and (creating or i in op.chunks) and same(a[s], new.arr[s]): continue
            bad('wrong-data', '%s: chunk %r of /%s is %s, expected %s%s' % (what, i, '/'.join(path), a[s].tolist(), old.arr[s].tolist(), ' or %s' % new.arr[s].tolist() if mine else ''))
        return d
    def created(self, h, k, new, path, op, what):
        """what an interrupted creation left: the object that was asked for, or something unusable"""
        try: o = h[k]
        except Exception: return None
        if isinstance(new, G):
            if not isinstance(o, z5py.Group): bad('wrong-kind', '%s: %s is not a group' % (what, '/'.join(path)))
            try: a = dict(o.attrs); keys = list(o)
            except Exception: return None
            if a: bad('wrong-attributes', '%s: new group %s has attributes %r' % (what, '/'.join(path), a))
            m = G()
            for x in keys:
                if x not in new.kids: bad('wrong-listing', '%s: new group %s contains %s' % (what, '/'.join(path), x))
                c = self.created(o, x, new.kids[x], path + (x,), op, what)
                if c is None: return None
                m.kids[x] = c
            return m
        if isinstance(o, z5py.Group): return None
        blank = copy.copy(new); blank.arr = np.full_like(new.arr, new.fill)
        if metaOf(o) != op.expectMeta: bad('metadata-changed', '%s: new dataset %s reports %r, expected %r' % (what, '/'.join(path), metaOf(o), op.expectMeta))
        blank.meta = op.expectMeta; blank.chunks = tuple(o.chunks); new.chunks = tuple(o.chunks); blank.attrs = {}
        return self.data(o, blank, new, path, op, what, True)
    # ---------------------------------------------------- one operation
    def refMeta(self, kw):
        """metadata of such a dataset in a store of its own"""
        _sim.quiet(1); _sim.keep(7)
        try:
            f = openAt(self.c.path[:self.c.path.rfind('/')] + '/ref' + ('.n5' if self.c.kind == 'n5' else '.zarr'), 'a', dimension_separator=self.c.sep, zarr_format=3 if self.c.kind == 'v3' else 2)
            k = {x: y for x, y in kw.items() if x != 'data'}
            return metaOf(f.create_dataset('ref', **k))
        finally:
            _sim.restore(7); _sim.quiet(0)
    def do(self, op, r):
        get = self.get(r)
        _sim.scope(self.index + 1)
        _sim.say('%d: %s' % (self.index, op.text))
        if op.refuse or op.reads: before = _sim.digest(ROOT)
        err = res = None
        if self.crash and not op.reads: _sim.capture(1)
        _sim.arm(1)
        try: res = op.run(get)
        except Exception as e: err = e
        _sim.arm(0)
        fired = _sim.fired()
        if self.crash and not op.reads: _sim.capture(0); self.kills(op)
        if err is None: _sim.note('ok')
        else: _sim.note(short(err))
        if op.refuse or op.reads:
            if _sim.digest(ROOT) != before: bad('store-changed', '%s changed the store' % op.text)
        if op.refuse:
            if err is None: bad('not-refused', '%s was not refused' % op.text)
            if not fired and op.refuse is not Exception and not isinstance(err, op.refuse): bad('wrong-exception', '%s: %s' % (op.text, explain(err)[-1500:]))
            return
        if err is not None:
            if not fired: bad('unexpected-exception', '%s: %s' % (op.text, explain(err)[-2500:]))
            if op.kind == 'remove': self.forget(op.path)
            if op.kind == 'create': self.forget(op.path)
            self.m = self.observe(op, '%s failed (%s)' % (op.text, short(err)))
            self.again(op)
            _sim.probe('failed')
            return
        op.check(res, self.m)
        if fired: _sim.probe('returned-despite-fault')
        op.apply(self.m)
        if op.kind in ('remove', 'create'): self.forget(op.path)
        if fired or r.chance(.1): self.m = self.observe(None, 'after %s' % op.text)
    def again(self, op):
        """the fault is gone: the same operation works"""
        if op.reads: _sim.quiet(1)
        elif op.kind in ('create', 'remove'):
            try: find(self.m, op.path); there = True
            except KeyError: there = False
            if there == (op.kind == 'create') or op.strict is False: return
            _sim.quiet(1)
        else: _sim.quiet(1)
        try:
            try: res = op.run(self.fresh())
            except Exception as e: bad('not-repeatable', 'repeating %s: %s' % (op.text, explain(e)[-2500:]))
        finally: _sim.quiet(0)
        op.check(res, self.m)
        op.apply(self.m)
    strict = True
    def kills(self, op):
        l = _sim.snaps(5)
        m = self.m; lv = self.live
        for i in l:
            _sim.scope(1000000 + self.index * 10000 + i)
            _sim.keep(1)
            self.live = {}
            p, t = _sim.snapuse(i)
            what = 'process killed during %s after %d store changes%s' % (op.text, p, ' inside a write' if t else '')
            self.m = copy.deepcopy(m)
            self.m = self.observe(op, what)
            self.again(op)
            self.m = self.observe(None, what + ', then repeated')
            _sim.restore(1)
        self.m = m; self.live = lv
        _sim.snapsdone()
        _sim.scope(20000 + self.index)
    # ---------------------------------------------------- a run
    def main(self, draw):
        _sim.quiet(1)
        if not inBucket(): _z5py.create_file(_z5py.File('/sim/x', _z5py.FileMode(_z5py.FileMode.a)), self.c.kind != 'n5', 3 if self.c.kind == 'v3' else 2)
        x = openAt(ROOT + '/x', 'a' if inBucket() else 'r+', 3 if self.c.kind == 'v3' else 2); x.create_group('a'); x.attrs['theirs'] = 1
        _sim.quiet(0)
        self.around = self.outside()
        self.f = self.c.open('a')
        self.m = self.c.fresh()
        for _ in range(self.r.range(1, 2)):
            op = createData(self, self.r); self.do(op, self.r); self.index += 1
        n = _sim.knob('ops', 1, self.n)
        for i in range(n):
            r = R(self.r.next())
            if not _sim.kept(i): self.index += 1; continue
            op = draw(self, r)
            if op is not None: self.do(op, r)
            self.index += 1
        _sim.scope(30000)
        self.m = self.observe(None, 'at the end')
        if _sim.fds(): bad('descriptor-leak', '%d descriptors are open at the end' % _sim.fds())

# ------------------------------------------------------------------ operations
def pickData(w, r, var=False):
    l = [(p, d) for p, d in nodes(w.m) if isinstance(d, D) and (d.var is not None) == var]
    return r.pick(l) if l else (None, None)
def pickAny(w, r): return r.pick(list(nodes(w.m)))
def pickGroup(w, r): return r.pick([(p, d) for p, d in nodes(w.m) if isinstance(d, G)])
def touched(d, roi):
    return {i for i in np.ndindex(*d.grid()) if all(s.start < t.stop and t.start < s.stop for s, t in zip(d.chunk(i), roi))}
def roiOf(index, shape):
    """the axis-aligned box an index expression selects"""
    l = list(index) if isinstance(index, tuple) else [index]
    if Ellipsis in l:
        i = l.index(Ellipsis); l[i:i + 1] = [slice(None)] * (len(shape) - len(l) + 1)
    l += [slice(None)] * (len(shape) - len(l))
    out = []
    for x, s in zip(l, shape):
        if isinstance(x, slice): a, b, _ = x.indices(s); out.append(slice(a, max(a, b)))
        else: x = int(x) % s; out.append(slice(x, x + 1))
    return tuple(out)
def empty(roi): return any(s.stop <= s.start for s in roi)
def box(r, d):
    aligned = r.chance(.4)
    out = []
    for s, c in zip(d.arr.shape, d.chunks):
        if aligned: g = -(-s // c); a = r.below(g); b = a + 1 + r.below(g - a); out.append(slice(a * c, min(b * c, s)))
        else: a = r.below(s); out.append(slice(a, a + 1 + r.below(s - a)))
    return tuple(out)

def fits(have, want):
    """documented: singleton dimensions at the ends may be added and removed, nothing else"""
    def core(t):
        t = list(t)
        while t and t[0] == 1: t.pop(0)
        while t and t[-1] == 1: t.pop()
        return t
    return core(have) == core(want)
def setitem(w, r):
    path, d = pickData(w, r)
    if d is None: return None
    idx = drawIndex(r, d.arr.shape)
    roi = roiOf(idx, d.arr.shape)
    shape = tuple(s.stop - s.start for s in roi)
    o = Op(); o.kind = 'data'; o.path = path
    dt = d.arr.dtype
    t = r.below(6)
    target = np.empty(d.arr.shape, dtype=dt)[idx]
    if t < 2:                        # scalar
        if dt.kind == 'f': v = r.pick([0, 3, 0.5, float('nan'), True, np.float32(2.5), 1e30, d.fill])
        else: v = r.pick([0, 1, 7, int(np.iinfo(dt).max), int(np.iinfo(dt).max) - 1, int(np.iinfo(dt).min), True, np.int8(5), 3.0, np.uint64(9), dt.type(np.iinfo(dt).max), d.fill])
        val = v; data = np.full(shape, 0, dtype=dt); data[...] = np.array(v).astype(dt) if not isinstance(v, bool) else int(v)
    else:
        data = drawArray(r, dt, shape)
        val = data
        k = r.below(6)
        if k == 0 and data.ndim < 3: val = data.tolist()
        elif k == 1 and r.chance(.5): val = data.reshape((1,) * r.below(3) + shape + (1,) * r.below(3))     # more singletons
        elif k == 4 and shape and 1 in (shape[0], shape[-1]):                                               # fewer
            c = list(shape)
            while c and 1 in (c[0], c[-1]) and r.chance(.8): c.pop(0 if c[0] == 1 else -1)
            val = data.reshape(c)
        elif k == 2 and target.shape != shape and len(target.shape): val = data.reshape(target.shape)
        elif k == 3 and dt.kind in 'iu' and dt.itemsize < 8 and data.size: val = data.astype('int64')
        if isinstance(val, np.ndarray):
            val = disguise(r, val)
            try: ok = r.chance(.8) or True
            except Exception: pass
    if val is not data and isinstance(val, np.ndarray) and not fits(val.shape, shape): val = data
    o.text = '%s[%s] = %s of %s' % ('/'.join(path), idx, type(val).__name__, np.array(val).ravel()[:12].tolist())
    o.chunks = touched(d, roi) if not empty(roi) else set()
    nt = r.range(1, 4) if r.chance(.4) else None
    def run(get):
        ds = get(path)
        if nt: ds.n_threads = nt
        ds[idx] = val
    def apply(m):
        if not empty(roi): find(m, path).arr = find(m, path).arr.copy(); find(m, path).arr[roi] = data
    o.run = run; o.apply = apply
    return o
def getitem(w, r):
    path, d = pickData(w, r)
    if d is None: return None
    idx = drawIndex(r, d.arr.shape)
    o = Op(); o.reads = True; o.path = path; o.text = 'read %s[%s]' % ('/'.join(path), idx)
    nt = r.range(1, 4) if r.chance(.4) else None
    def run(get):
        ds = get(path)
        if nt: ds.n_threads = nt
        return ds[idx]
    def check(res, m):
        want = find(m, path).arr[idx]
        if not isinstance(res, np.ndarray): res = np.asarray(res)
        want = np.asarray(want)
        if not same(res, want): bad('wrong-data', '%s: got %s %s %s, expected %s %s' % (o.text, res.dtype, res.shape, res.tolist(), want.shape, want.tolist()))
    o.run = run; o.check = check
    return o
def direct(w, r):
    path, d = pickData(w, r)
    if d is None: return None
    roi = box(r, d)
    shape = tuple(s.stop - s.start for s in roi)
    o = Op(); o.path = path
    style = r.pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
    if style > 7: roi = tuple(slice(0, s) for s in d.arr.shape); shape = d.arr.shape
    start = [s.start for s in roi]; stop = [s.stop for s in roi]
    if r.chance(.3): start = tuple(start)
    if style == 8:                   # the selections left out
        o.kind = 'data'; o.chunks = touched(d, roi)
        data = drawArray(r, d.arr.dtype, shape); v = disguise(r, data); k = r.below(3)
        pad = np.zeros(tuple(s + 2 for s in shape), dtype=data.dtype); inner = tuple(slice(1, 1 + s) for s in shape); pad[inner] = data
        o.text = 'write_direct %s without %s of %s' % ('/'.join(path), ['selections', 'dest_sel', 'source_sel'][k], data.ravel()[:12].tolist())
        def run(get):
            ds = get(path)
            if k == 0: ds.write_direct(v)
            elif k == 1: ds.write_direct(pad, source_sel=inner)
            else: ds.write_direct(v, dest_sel=roi)
        def apply(m): find(m, path).arr = data.copy()
        o.run = run; o.apply = apply
    elif style > 8:
        o.reads = True; k = r.below(3)
        o.text = '%s %s without selections' % ('read_direct' if style == 9 else 'array of a type', '/'.join(path))
        def run(get):
            ds = get(path)
            if style == 10: return ds.__array__('float64') if k == 0 else np.asarray(ds, dtype='float64')
            out = np.zeros(shape, dtype=d.arr.dtype)
            if k == 0: ds.read_direct(out)
            elif k == 1: ds.read_direct(out, source_sel=roi)
            else: ds.read_direct(out, dest_sel=roi)
            return out
        def check(res, m):
            want = find(m, path).arr
            if style == 10: want = want.astype('float64')
            if not same(res, want): bad('wrong-data', '%s: got %s, expected %s' % (o.text, res.tolist(), want.tolist()))
        o.run = run; o.check = check
    elif style < 4:
        o.kind = 'data'; o.chunks = touched(d, roi)
        data = drawArray(r, d.arr.dtype, shape); v = disguise(r, data)
        pad = np.zeros(tuple(s + 2 for s in shape), dtype=data.dtype); inner = tuple(slice(1, 1 + s) for s in shape); pad[inner] = data
        o.text = '%s %s at %s of %s' % (['write_subarray', 'write_subarray', 'write_direct', 'write_direct'][style], '/'.join(path), roi, data.ravel()[:12].tolist())
        def run(get):
            ds = get(path)
            if style < 2: ds.write_subarray(start, v)
            elif style == 2: ds.write_direct(v, dest_sel=roi)
            else: ds.write_direct(pad, source_sel=inner, dest_sel=roi)
        def apply(m): x = find(m, path); x.arr = x.arr.copy(); x.arr[roi] = data
        o.run = run; o.apply = apply
    else:
        o.reads = True
        o.text = '%s %s at %s' % (['read_subarray', 'read_subarray', 'read_direct', 'asarray'][style - 4], '/'.join(path), roi)
        def run(get):
            ds = get(path)
            if style < 6: return ds.read_subarray(start, stop)
            if style == 6:
                out = np.zeros(tuple(s + 2 for s in shape), dtype=d.arr.dtype); inner = tuple(slice(1, 1 + s) for s in shape)
                ds.read_direct(out, source_sel=roi, dest_sel=inner)
                x = out[inner].copy(); out[inner] = 0
                if out.any(): bad('wrong-data', '%s: wrote outside of the selection' % o.text)
                return x
            return np.asarray(ds)[roi]
        def check(res, m):
            want = find(m, path).arr[roi]
            if not same(res, want): bad('wrong-data', '%s: got %s, expected %s' % (o.text, res.tolist(), want.tolist()))
        o.run = run; o.check = check
    return o
def chunkop(w, r):
    path, d = pickData(w, r)
    if d is None: return None
    i = tuple(r.below(g) for g in d.grid()); sl = d.chunk(i)
    shape = tuple(s.stop - s.start for s in sl)
    o = Op(); o.path = path
    full = w.c.kind != 'n5'
    style = r.below(4)
    if style == 2 and r.chance(.4):
        header = r.chance(.5)
        o.reads = True; o.text = 'get_chunk_shape %s %s' % ('/'.join(path), i)
        def run(get):
            x = get(path)
            return x.get_chunk_shape(i, from_header=header and x.chunk_exists(i))
        def check(res, m):
            if tuple(res) != shape: bad('wrong-data', '%s: %r' % (o.text, res))
        o.run = run; o.check = check
        return o
    arg = list(i) if r.chance(.5) else i
    if style == 0:
        o.kind = 'data'; o.chunks = {i}
        data = drawArray(r, d.arr.dtype, d.chunks if full else shape)
        o.text = 'write_chunk %s %s %s' % ('/'.join(path), i, data.ravel()[:12].tolist())
        o.run = lambda get: get(path).write_chunk(arg, data)
        def apply(m): x = find(m, path); x.arr = x.arr.copy(); x.arr[sl] = data[tuple(slice(0, s) for s in shape)]
        o.apply = apply
    elif style == 1:
        o.reads = True; o.text = 'read_chunk %s %s' % ('/'.join(path), i)
        o.run = lambda get: get(path).read_chunk(arg)
        def check(res, m):
            x = find(m, path); want = x.arr[sl]
            if res is None:
                if not same(want, np.full_like(want, x.fill)): bad('wrong-data', '%s: no chunk, expected %s' % (o.text, want.tolist()))
                return
            if res.shape != (x.chunks if full else shape): bad('wrong-data', '%s: shape %s' % (o.text, res.shape))
            if not same(res[tuple(slice(0, s) for s in shape)], want): bad('wrong-data', '%s: got %s, expected %s' % (o.text, res.tolist(), want.tolist()))
        o.check = check
    elif style == 2:
        o.reads = True; o.text = 'chunk_exists %s %s' % ('/'.join(path), i)
        o.run = lambda get: get(path).chunk_exists(arg)
        def check(res, m):
            x = find(m, path); want = x.arr[sl]
            if not res and not same(want, np.full_like(want, x.fill)): bad('wrong-membership', '%s: False, but it holds data' % o.text)
        o.check = check
    else:
        o.kind = 'data'; o.chunks = {i}; o.text = 'remove chunk %s %s' % ('/'.join(path), i)
        def run(get): get(path)._impl.remove_chunk(list(i))
        def apply(m): x = find(m, path); x.arr = x.arr.copy(); x.arr[sl] = x.fill
        o.run = run; o.apply = apply
    return o
def varchunk(w, r):
    path, d = pickData(w, r, True)
    if d is None: return None
    g = d.grid()[0]; i = r.below(g); sl = d.chunk((i,))[0]; n = sl.stop - sl.start
    o = Op(); o.path = path
    if r.chance(.55):
        o.kind = 'data'; o.chunks = {(i,)}
        var = r.chance(.6)
        data = drawArray(r, d.arr.dtype, (r.range(1, 12) if var else n,))
        o.text = 'write_chunk %s %d %s%s' % ('/'.join(path), i, 'varlen ' if var else '', data.tolist())
        o.run = lambda get: get(path).write_chunk((i,), data, var)
        def apply(m):
            x = find(m, path); x.var = dict(x.var); x.var[i] = data
            if not var and not data.any(): del x.var[i]      # the fill value is not stored
        o.apply = apply
    else:
        o.reads = True; o.text = 'read_chunk %s %d' % ('/'.join(path), i)
        o.run = lambda get: get(path).read_chunk((i,))
        def check(res, m):
            want = find(m, path).var.get(i)
            if (res is None) != (want is None) or res is not None and not same(res, want): bad('wrong-data', '%s: got %r, expected %r' % (o.text, res, want))
        o.check = check
    return o
def attrs(w, r):
    path, d = pickAny(w, r)
    o = Op(); o.path = path
    t = r.below(14); k = r.pick(KEYS); name = '/'.join(path) or '/'
    if t < 4:
        o.kind = 'attrs'; v = drawJson(r); o.text = '%s.attrs[%r] = %r' % (name, k, v)
        def run(get): get(path).attrs[k] = v
        def apply(m): x = find(m, path); x.attrs = dict(x.attrs); x.attrs[k] = json.loads(json.dumps(v))
    elif t < 6:
        o.kind = 'attrs'; v = {r.pick(KEYS): drawJson(r) for _ in range(r.below(4))}; o.text = '%s.attrs.update(%r)' % (name, v)
        def run(get): get(path).attrs.update(v)
        def apply(m): x = find(m, path); x.attrs = dict(x.attrs); x.attrs.update(json.loads(json.dumps(v)))
    elif t < 8 and set(d.attrs) - {'n5'}:
        o.kind = 'attrs'; k = r.pick(sorted(set(d.attrs) - {'n5'})); pop = r.chance(.4); o.text = 'del %s.attrs[%r]' % (name, k)
        def run(get):
            a = get(path).attrs
            if pop: return a.pop(k, None)
            del a[k]
        def check(res, m):
            if pop and res != find(m, path).attrs.get(k): bad('wrong-attributes', '%s: popped %r' % (o.text, res))
        def apply(m): x = find(m, path); x.attrs = dict(x.attrs); x.attrs.pop(k, None)
        o.check = check
    elif t == 12:
        o.kind = 'attrs'; v = r.pick([complex(1, -2.5), np.int16(7), [1, complex(0, 3), {'x': np.uint64(2**63)}], {'y': complex(2, 2)}]); up = r.chance(.4); o.text = '%s.attrs[%r] = %r with an encoder' % (name, k, v)
        def run(get):
            a = get(path).attrs
            z5py.set_json_encoder(Encoder)
            try:
                if up: a.update({k: v})
                else: a[k] = v
            finally: z5py.set_json_encoder(None)
        def apply(m): x = find(m, path); x.attrs = dict(x.attrs); x.attrs[k] = json.loads(json.dumps(v, cls=Encoder))
    elif t == 13:
        o.reads = True; o.text = 'read %s.attrs with a decoder' % name
        def run(get):
            a = get(path).attrs
            z5py.set_json_decoder(Decoder)
            try: return dict(a)
            finally: z5py.set_json_decoder(None)
        def check(res, m):
            want = json.loads(json.dumps(find(m, path).attrs), cls=Decoder)
            if res != want: bad('wrong-attributes', '%s: %r, expected %r' % (o.text, res, want))
        apply = o.apply; o.check = check
    else:
        o.reads = True; o.text = 'read %s.attrs' % name
        def run(get):
            a = get(path).attrs
            if t == 8: return dict(a)
            if t == 9: return len(a), sorted(a), list(a.keys()) and True
            if t == 10: return k in a, a.get(k, 'none')
            return dict(a.items())
        def check(res, m):
            x = find(m, path).attrs
            want = {9: (len(x), sorted(x), bool(x) and True or []), 10: (k in x, x.get(k, 'none'))}.get(t, x)
            if res != want: bad('wrong-attributes', '%s: %r, expected %r' % (o.text, res, want))
        apply = o.apply; o.check = check
    o.run = run; o.apply = apply
    return o
def freePath(w, r, deep=True):
    p, g = pickGroup(w, r)
    free = [n for n in NAMES if n not in g.kids]
    if not free: return None
    p = p + (r.pick(free),)
    if deep and r.chance(.25): p = p + (r.pick(NAMES),)
    return p
def putNode(m, path, node):
    for k in path[:-1]:
        if k not in m.kids: m.kids[k] = G()
        m = m.kids[k]
    m.kids[path[-1]] = node
def base(w, r, path):
    """an existing group from which to address the path"""
    i = 0
    while i < len(path) - 1:
        try:
            if not isinstance(find(w.m, path[:i + 1]), G): break
        except KeyError: break
        i += 1
    i = r.below(i + 1)
    return path[:i], spell(r, '/'.join(path[i:]))
def createData(w, r, path=None):
    path = path or freePath(w, r)
    if path is None: return None
    var = w.c.kind == 'n5' and r.chance(.2)
    kw = w.c.create_args(r, var)
    o = Op(); o.kind = 'create'; o.path = path; o.strict = None
    data = None
    if not var and r.chance(.35):
        data = drawArray(r, kw['dtype'], kw['shape'])
    at, name = base(w, r, path)
    req = r.chance(.3)
    n = newData(kw, data)
    if var: n.var = {}
    n.attrs = {}
    text = ', '.join('%s=%r' % x for x in sorted(kw.items()))
    o.text = '%s /%s in /%s (%s)%s' % ('require_dataset' if req else 'create_dataset', name, '/'.join(at), text, ' with data' if data is not None else '')
    o.expectMeta = w.refMeta(kw)
    n.meta = o.expectMeta; n.chunks = n.meta[1]; n.shards = n.meta[2]
    form = r.below(3)
    def run(get):
        a = dict(kw)
        if data is not None:
            a['data'] = data
            if not req and form == 1: del a['shape']
            if not req and form == 2: del a['dtype']
        g = get(at)
        d = g.require_dataset(name, **a) if req else g.create_dataset(name, **a)
        return d
    def check(res, m):
        if metaOf(res) != o.expectMeta: bad('metadata-changed', '%s reports %r, expected %r' % (o.text, metaOf(res), o.expectMeta))
        c = kw.get('compression')
        if c and res.compression not in (c, {'zlib': 'gzip', 'gzip': 'zlib', 'bzip2': 'bz2'}.get(c)): bad('metadata-changed', '%s has compression %s' % (o.text, res.compression))
        if tuple(res.shape) != tuple(kw['shape']) or str(res.dtype) != kw['dtype'] or (res.shards or None) != kw.get('shards'): bad('metadata-changed', '%s reports %r' % (o.text, metaOf(res)))
        if 'level' in kw and kw['level'] != json.loads(o.expectMeta[5]).get('level'): bad('metadata-changed', '%s has options %s' % (o.text, o.expectMeta[5]))
    o.run = run; o.check = check
    o.apply = lambda m: putNode(m, path, copy.deepcopy(n))
    return o
def createGroup(w, r):
    path = freePath(w, r)
    if path is None: return None
    at, name = base(w, r, path)
    req = r.chance(.4)
    o = Op(); o.kind = 'create'; o.path = path; o.strict = None
    o.text = '%s %s in /%s' % ('require_group' if req else 'create_group', name, '/'.join(at))
    o.run = lambda get: get(at).require_group(name) if req else get(at).create_group(name)
    o.apply = lambda m: putNode(m, path, G())
    def check(res, m):
        if not isinstance(res, z5py.Group) or len(res) or dict(res.attrs): bad('wrong-kind', '%s gives %r' % (o.text, res))
        checkName(res, path, o.text)
    o.check = check
    return o
def checkName(x, path, what):
    if x.name != '/' + '/'.join(path): bad('wrong-name', '%s: the name is %r' % (what, x.name))
OUTSIDE = ['..', '../x', '../x/a', '../../x', 'a/../../x', 'sim/../..', './../x', '/sim/../x', '..//x', '../c', 'a/../b', 'b/..']
def escape(w, r):
    """names that lead out of the group, and the name of the group itself"""
    path, d = pickGroup(w, r)
    o = Op(); o.path = path; t = r.below(13); where = ' in /' + '/'.join(path)
    self_ = t >= 9
    name = r.pick(['', '/', '.', './', '//', './.']) if self_ else r.pick(OUTSIDE)
    kw = dict(shape=(3,), dtype='uint8', chunks=(2,))
    o.text = ['create_group', 'require_group', 'create_dataset', 'require_dataset', 'del', 'get', 'in', 'is_sub_group', 'lookup', 'del', 'create_group', 'create_dataset', 'lookup'][t] + ' %r' % name + where
    o.reads = True
    if t == 6 or t == 8:
        def run(get):
            g = get(path)
            try: return (name in g) if t == 6 else g.get(name)
            except ValueError: return None
        def check(res, m):
            if res not in (False, None): bad('not-refused', '%s: %r' % (o.text, res))
        o.run = run; o.check = check
        return o
    def check(res, m):
        if path == () or isinstance(res, z5py.Group): return
        bad('wrong-kind', '%s: %r' % (o.text, res))
    if t == 12: o.run = lambda get: get(path)[name]; o.check = check; return o
    o.reads = False; o.refuse = Exception
    def run(get):
        g = get(path)
        if t in (0, 10): g.create_group(name)
        elif t == 1: g.require_group(name)
        elif t in (2, 11): g.create_dataset(name, **kw)
        elif t == 3: g.require_dataset(name, **kw)
        elif t in (4, 9): del g[name]
        elif t == 5: g[name]
        elif t == 7:
            if not g.is_sub_group(name): raise ValueError
    o.run = run
    return o
def remove(w, r):
    l = [(p, d) for p, d in nodes(w.m) if p]
    if not l: return None
    path, d = r.pick(l)
    at, name = base(w, r, path)
    o = Op(); o.kind = 'remove'; o.path = path; o.strict = None; o.text = 'del %s in /%s' % (name, '/'.join(at))
    def run(get): g = get(at); g.__delitem__(name)
    def apply(m): del find(m, path[:-1]).kids[path[-1]]
    o.run = run; o.apply = apply
    return o
def browse(w, r):
    path, d = pickGroup(w, r)
    o = Op(); o.reads = True; o.path = path; t = r.below(7); name = r.pick(NAMES); last = r.range(1, 4); o.text = ['keys', 'len', 'contains ' + name, 'visititems', 'items', 'get', 'visititems up to %d' % last][t] + ' of /' + '/'.join(path)
    sub = [(p, n) for p, n in nodes(d) if p]
    def run(get):
        g = get(path)
        if t == 0: return sorted(g)
        if t == 1: return len(g)
        if t == 2: return name in g
        if t == 3: l = []; g.visititems(lambda n, x: l.append((n, isinstance(x, z5py.Group)))); return sorted(l)
        if t == 4: return sorted((k, isinstance(v, z5py.Group)) for k, v in g.items())
        if t == 6:
            l = []
            def visit(n, x):
                l.append((n, isinstance(x, z5py.Group)))
                return last * 10 if len(l) == last else None
            return g.visititems(visit), l
        x = g.get(name); return None if x is None else isinstance(x, z5py.Group)
    def check(res, m):
        d = find(m, path)
        if t == 6:
            every = {('/'.join(p), isinstance(n, G)) for p, n in nodes(d) if p}; n = min(last, len(every))
            if res[0] != (last * 10 if len(every) >= last else None) or len(res[1]) != n or len(set(res[1])) != n or not set(res[1]) <= every: bad('wrong-listing', '%s: %r of %r' % (o.text, res, sorted(every)))
            return
        want = [sorted(d.kids), len(d.kids), name in d.kids, sorted(('/'.join(p), isinstance(n, G)) for p, n in nodes(d) if p),
                sorted((k, isinstance(v, G)) for k, v in d.kids.items()), None if name not in d.kids else isinstance(d.kids[name], G)][t]
        if res != want: bad('wrong-listing', '%s: %r, expected %r' % (o.text, res, want))
    o.run = run; o.check = check
    return o
def again(w, r):
    """other handles: reopening, pickling"""
    o = Op(); o.reads = True; t = r.below(7)
    path, d = pickAny(w, r)
    if t > 4:
        o.text = 'the file as a context, and where %s belongs' % ('/'.join(path) or 'it')
        def run(get):
            x = get(path); up = []
            while x.parent is not x: up.append(x.name); x = x.parent
            with w.c.open('r+') as f: f.close()
            return f, f.name, None if inBucket() else f.filename, up, x is f.file or x.file is x, f.is_zarr, get(path).is_zarr
        def check(res, m):
            want = ('/', None if inBucket() else w.c.path, None, True, w.c.kind != 'n5', w.c.kind != 'n5')
            if res[1:3] != want[:2] or res[4:] != want[3:]: bad('wrong-name', '%s: %r, expected %r' % (o.text, res[1:], want))
            if path and (not res[3] or res[3][0] != '/' + '/'.join(path)) or any(not a.startswith(b + '/') for a, b in zip(res[3], res[3][1:])): bad('wrong-name', '%s: the names upwards are %r' % (o.text, res[3]))
            w.f = res[0]; w.live = {}
        o.run = run; o.check = check
        return o
    if t < 2:
        mode = r.pick(['a', 'r+', 'a']); cls = r.pick([None, None, z5py.N5File if w.c.kind == 'n5' and w.c.path.endswith('.n5') else z5py.ZarrFile if w.c.kind != 'n5' else None])
        guess = r.chance(.3)
        o.text = 'open the file with mode %s%s' % (mode, ' without naming the format' if guess else '')
        def run(get): return z5py.File(w.c.path, mode) if guess and w.c.sep == '.' and not inBucket() else w.c.open(mode, cls)
        def check(res, m): w.f = res; w.live = {}
        o.check = check
    elif t < 4:
        o.text = 'pickle %s' % ('/'.join(path) or 'the file')
        def run(get): return pickle.loads(pickle.dumps(get(path)))
        def check(res, m):
            x = find(m, path)
            if isinstance(x, G) != isinstance(res, z5py.Group): bad('wrong-kind', '%s gives %r' % (o.text, res))
            if path: w.live[path] = res; checkName(res, path, o.text)
            else: w.f = res; w.live = {}
        o.check = check
    else:
        p, d = pickData(w, r)
        if d is None: return None
        o.text = 'require existing %s' % '/'.join(p)
        ch = r.chance(.5); dt = r.chance(.5)
        def run(get):
            return get(p[:-1]).require_dataset(p[-1], shape=d.arr.shape, **({'chunks': list(d.chunks)} if ch else {}), **({'dtype': d.arr.dtype} if dt else {}))
        def check(res, m):
            if metaOf(res) != find(m, p).meta: bad('metadata-changed', '%s reports %r' % (o.text, metaOf(res)))
        o.check = check
    o.run = run
    return o
def illegal(w, r):
    o = Op(); o.refuse = Exception; t = r.below(26)
    path, d = pickData(w, r)
    if d is None: return None
    sh = d.arr.shape; dt = d.arr.dtype; ax = r.below(len(sh))
    n = '/'.join(path)
    def at(v): return tuple([slice(None)] * ax + [v] + [slice(None)] * (len(sh) - ax - 1))
    if t == 0: o.refuse = ValueError; o.text = 'index past the end of ' + n; v = sh[ax] + r.below(3); o.run = lambda get: get(path)[at(v)]
    elif t == 1: o.refuse = ValueError; o.text = 'write past the end of ' + n; v = r.pick([sh[ax], -sh[ax] - 1]); o.run = lambda get: get(path).__setitem__(at(v), 1)
    elif t == 2: o.refuse = ValueError; o.text = 'a step in ' + n; o.run = lambda get: get(path)[at(slice(None, None, 2))]
    elif t == 3:
        o.text = 'an array of another shape for ' + n
        o.run = lambda get: get(path).__setitem__(Ellipsis, np.ones(tuple(s + 1 for s in sh), dtype=dt))
    elif t == 4:
        o.text = 'write_subarray beyond ' + n; a = [s // 2 for s in sh]
        o.run = lambda get: get(path).write_subarray(a, np.ones(tuple(s - b + 1 for s, b in zip(sh, a)), dtype=dt))
    elif t == 5:
        o.text = 'read_subarray beyond ' + n; o.run = lambda get: get(path).read_subarray([0] * len(sh), [s + 1 for s in sh])
    elif t == 6:
        other = 'float64' if dt != np.float64 else 'uint8'
        o.text = 'write_subarray of another type to ' + n; o.run = lambda get: get(path).write_subarray([0] * len(sh), np.ones(sh, dtype=other))
    elif t == 7:
        o.text = 'write_chunk of a wrong size to ' + n; k = r.pick([1, -1])
        size = int(np.prod(d.chunks if w.c.kind != 'n5' else [s.stop - s.start for s in d.chunk((0,) * len(sh))])) + k
        if size < 1: size = size + 2
        o.run = lambda get: get(path).write_chunk([0] * len(sh), np.ones(size, dtype=dt))
    elif t == 8:
        o.text = 'create %s again' % n; g = r.chance(.5)
        o.refuse = KeyError
        o.run = lambda get: get(path[:-1]).create_group(path[-1]) if g else get(path[:-1]).create_dataset(path[-1], shape=(3,), dtype='uint8', chunks=(2,))
    elif t == 9:
        o.text = 'require %s with other properties' % n; k = r.below(4); o.refuse = TypeError
        def run(get):
            g = get(path[:-1])
            if k == 0: g.require_dataset(path[-1], shape=sh + (1,))
            elif k == 1: g.require_dataset(path[-1], shape=sh, dtype='uint8' if dt != np.uint8 else 'int8')
            elif k == 2: g.require_dataset(path[-1], shape=sh, chunks=tuple(c + 1 for c in d.chunks))
            else: g.require_group(path[-1])
        o.run = run
    elif t == 10:
        o.text = 'write a chunk outside of the grid of ' + n; i = [r.below(g) for g in d.grid()]; i[ax] = d.grid()[ax] + r.below(2)
        o.run = lambda get: get(path).write_chunk(i, np.ones(d.chunks, dtype=dt))
    elif t == 11:
        k = r.below(5); i = [0] * (len(sh) + r.pick([1, -1]) if len(sh) > 1 else 2)
        o.text = 'chunk call %d on %s with %d indices' % (k, n, len(i))
        def run(get):
            x = get(path)
            if k == 0: x.chunk_exists(i)
            elif k == 1: x.read_chunk(i)
            elif k == 2: x.write_chunk(i, np.ones(d.chunks, dtype=dt))
            elif k == 3: x.get_chunk_shape(i)
            else: x.read_subarray([0] * len(i), [1] * len(i))
        o.run = run
    elif t == 12:
        o.text = 'subarray of %s whose end overflows' % n; g = r.chance(.5)
        a = [0] * len(sh); a[ax] = 2 ** 64 - 1
        o.run = lambda get: get(path).write_subarray(a, np.ones((1,) * len(sh), dtype=dt)) if g else get(path).read_subarray(a, [1] * len(sh))
    elif t == 13:
        k = r.below(5); c = list(d.chunks)
        o.text = 'create an impossible dataset (%d)' % k
        def run(get):
            kw = dict(shape=sh, dtype=dt, chunks=tuple(c))
            if k == 0: kw['chunks'] = tuple(0 if a == ax else x for a, x in enumerate(c))
            elif k == 1: kw['chunks'] = tuple(c) + (1,)
            elif k == 2: kw['dtype'] = 'complex128'
            elif k == 3: kw['compression'] = 'no-such-codec'
            else: kw['shards'] = tuple(x + 1 for x in c) if w.c.kind == 'v3' and min(c) > 1 else tuple(c) + (1,)
            get(path[:-1]).create_dataset('impossible', **kw)
        o.run = run
    elif t == 15:
        c = r.pick({'n5': ['zlib', 'no'], 'v2': ['xz', 'lz4', 'no'], 'v3': ['zlib', 'bzip2', 'xz', 'lz4', 'no']}[w.c.kind]); o.refuse = ValueError; req = r.chance(.4)
        o.text = 'compression %s in a container of format %s' % (c, w.c.kind)
        o.run = lambda get: (get(path[:-1]).require_dataset if req else get(path[:-1]).create_dataset)('impossible', shape=sh, dtype=dt, compression=c)
    elif t == 16:
        c, k = r.pick([('raw', 'level'), ('gzip', 'clevel'), ('blosc', 'speed'), ('zstd', 'shuffle'), ('gzip', 'fill_value')]); o.refuse = RuntimeError; req = r.chance(.4)
        if c == 'raw' and w.c.kind == 'v2' and False: return None
        o.text = 'compression %s with option %s' % (c, k)
        o.run = lambda get: (get(path[:-1]).require_dataset if req else get(path[:-1]).create_dataset)('impossible', shape=sh, dtype=dt, compression=c, **{k: 3})
    elif t == 17:
        k = r.below(5); a = np.ones(sh, dtype=dt); o.refuse = ValueError if k < 3 else TypeError
        o.text = 'create a dataset from arguments that do not fit (%d)' % k
        def run(get):
            f = get(path[:-1]).create_dataset
            if k == 0: f('impossible', data=a, shape=sh[:-1] + (sh[-1] + 1,))
            elif k == 1: f('impossible', data=a, dtype='uint8' if dt != np.uint8 else 'int8')
            elif k == 2: f('impossible', data=a, shape=(1,) + sh)
            elif k == 3: f('impossible', dtype=dt)
            else: f('impossible', shape=sh)
        o.run = run
    elif t == 18:
        l = [p for p, x in nodes(w.m) if isinstance(x, G) and p]
        if not l: return None
        p = r.pick(l); k = r.below(3); o.refuse = TypeError if k == 0 else KeyError; at_, name = base(w, r, p)
        o.text = '%s %s in /%s, a group' % (['require_dataset', 'create_dataset', 'create_group'][k], name, '/'.join(at_))
        def run(get):
            g = get(at_)
            if k == 0: g.require_dataset(name, shape=(3,), dtype='uint8', chunks=(2,))
            elif k == 1: g.create_dataset(name, shape=(3,), dtype='uint8', chunks=(2,))
            else: g.create_group(name)
        o.run = run
    elif t == 19:
        p, g = pickGroup(w, r); free = [x for x in NAMES if x not in g.kids]; k = r.below(4); o.refuse = KeyError
        if not free: return None
        name = r.pick(free) + (r.chance(.3) and '/' + r.pick(NAMES) or ''); o.text = '%s of %s in /%s, which is not there' % (['del', 'get', 'missing attribute', 'is it contained'][k], name, '/'.join(p))
        def run(get):
            g = get(p)
            if k == 0: del g[name]
            elif k == 1: g[name]
            elif k == 2: g.attrs['no ' + name]
            elif name not in g and g.get(name, 5) == 5: raise KeyError
        o.run = run
    elif t == 20:
        v = r.pick(['abc', ['x'], object(), [{}], [[1, 2], [3]], {'a': 1}, b'z']); o.refuse = (TypeError, OSError, ValueError)
        o.text = 'values of type %s for %s' % (type(v).__name__, n); o.run = lambda get: get(path).__setitem__(Ellipsis, v)
    elif t == 21:
        if w.c.kind == 'n5': return None
        o.text = 'varlen chunk in ' + n; o.refuse = RuntimeError
        o.run = lambda get: get(path).write_chunk([0] * len(sh), np.ones(3, dtype=dt), True)
    elif t == 22:
        i, o.refuse = r.pick([('a', TypeError), ([0], TypeError), (None, TypeError), ((Ellipsis, Ellipsis), (TypeError, ValueError)), ((0,) * (len(sh) + 1), TypeError), ((Ellipsis,) + (0,) * (len(sh) + 1), TypeError), ((slice(None), 'a')[-len(sh):], TypeError)])
        wr = r.chance(.5); o.text = 'index %r in %s' % (i, n)
        o.run = lambda get: get(path).__setitem__(i, 1) if wr else get(path)[i]
    elif t == 23:
        k = r.below(4); v = r.pick([complex(1, 2), {1, 2}, b'x', object()]); p, x = pickAny(w, r); o.refuse = TypeError if k < 2 else RuntimeError
        o.text = ['attribute', 'attributes', 'no encoder', 'no decoder'][k] + ' that cannot be used: %s' % type(v).__name__
        def run(get):
            a = get(p).attrs
            if k == 0: a['fine'] = v
            elif k == 1: a.update({'fine': 1, 'not': [v]})
            elif k == 2: z5py.set_json_encoder(dict)
            else: z5py.set_json_decoder(dict)
        o.run = run
    elif t == 24:
        roi = box(r, d); want = tuple(s.stop - s.start for s in roi); have = tuple(r.pick([1, 1, s, s, s + 1]) for s in want) + ((r.range(1, 2),) if r.chance(.3) else ())
        if r.chance(.4): have = have[r.below(len(have)):]
        if fits(have, want): return None
        o.text = 'an array of shape %s for a selection of shape %s in %s' % (have, want, n); o.refuse = ValueError
        o.run = lambda get: get(path).__setitem__(roi, np.ones(have, dtype=dt))
    else:
        key = r.pick(RESERVED[w.c.kind] or ['x'])
        if w.c.kind != 'n5': return None
        o.text = 'reserved attribute %s of %s' % (key, n)
        def run(get): get(path).attrs[key] = 'x'
        o.run = run
    return o

TABLE = [(setitem, 10), (getitem, 8), (direct, 7), (chunkop, 8), (varchunk, 5), (attrs, 9), (createData, 5), (createGroup, 4), (remove, 4), (browse, 5), (again, 6), (illegal, 6), (escape, 3)]
def drawer(skip=()):
    l = [f for f, n in TABLE if f not in skip for _ in range(n)]
    return lambda w, r: r.pick(l)(w, r)

def model(): World(ops=(6, 22)).main(drawer())
def names(kinds=IO):
    l = [f for f, n in ((createData, 3), (createGroup, 6), (remove, 3), (browse, 4), (again, 4), (attrs, 3), (escape, 6)) for _ in range(n)]
    World(kinds, .3, ops=(5, 18)).main(lambda w, r: r.pick(l)(w, r))
def fault(kinds=IO): World(kinds, .95, ops=(3, 12)).main(drawer((illegal, escape)))
def crash(): World(crash=True, ops=(2, 7)).main(drawer((illegal, browse, getitem, escape)))
def among(kinds, pFault, ops, *what, **k):
    l = [f for f, n in what for _ in range(n)]
    World(kinds, pFault, ops=ops, **k).main(lambda w, r: r.pick(l)(w, r))
def data(): among('', 0, (6, 20), (setitem, 10), (getitem, 8), (direct, 6), (chunkop, 6), (varchunk, 1), (again, 1), (attrs, 1))
def attributes(kinds=IO): among(kinds, .4, (6, 18), (attrs, 12), (setitem, 2), (createGroup, 2), (createData, 1), (again, 2), (illegal, 2), (browse, 1))
def hierarchy(kinds=IO): among(kinds, .5, (5, 16), (createData, 5), (createGroup, 5), (remove, 6), (browse, 5), (again, 4), (attrs, 2), (setitem, 2), (illegal, 1))

# the same on the simulated object store
def bucket():
    global ROOT
    ROOT = '/s3'
    r = R(_sim.rand(0))
    _sim.s3(r.pick([1, 2, 3, 7, 1000]), r.chance(.15))
    global CONN
    CONN = (r.pick([None, None, 'http://127.0.0.1:9000', 'https://store.example', 'play.example:9443']), r.pick(['us-east-1', 'us-east-1', 'eu-central-1', '']), r.chance(.25)) + r.pick([(None, None), ('AK0', 's0'), ('AK1', 's1'), ('AK0', '')])
    if not _sim.knob('connection', 0, r.chance(.4)): CONN = None
def s3model(): bucket(); model()
def s3names(): bucket(); names(NET)
def s3fault(): bucket(); fault(NET)
def s3crash(): bucket(); crash()
def s3data(): bucket(); data()
def s3attributes(): bucket(); attributes(NET)
def s3hierarchy(): bucket(); hierarchy(NET)
def s3modes(): bucket(); modes()
def s3threads(): bucket(); threads()

# ------------------------------------------------------------------ file modes
class Slot:
    """a place for a container: absent, or a container of a known format with known content"""
    def __init__(self, path): self.path = path; self.w = World.__new__(World); self.gone()
    def gone(self): self.there = False; self.w.m = None; self.w.live = {}
    def put(self, kind, sep='.'):
        c = Container.__new__(Container); c.kind = kind; c.sep = sep; c.path = self.path
        self.there = True; self.w.c = c; self.w.m = c.fresh(); self.w.crash = False; self.w.live = {}
        c.open = self.reader
    def reader(self, mode): return openAt(self.path, mode, 3 if self.w.c.kind == 'v3' else 2, self.w.c.sep) if inBucket() else z5py.File(self.path, mode)
    def infer(self):
        if inBucket(): return True
        if self.path.endswith(('.zarr', '.zr', '.ZARR')): return True
        if self.path.endswith(('.n5', '.N5')): return False
        return self.there and self.w.c.kind != 'n5'
    def digest(self): return _sim.digest(self.path)

SLOTS = ['/sim/c.n5', '/sim/c.zarr', '/sim/c', '/sim/cc', '/sim/c.n5.zr', '/sim/d.x', '/sim/e/f.zarr', '/sim/c.zarr.n5']
BUCKETSLOTS = ['/s3/c', '/s3/c.zarr', '/s3/cc', '/s3/d/c', '/s3/d/c.zarr', '/s3/e/f.zarr']
def modes():
    import pathlib
    r = R(_sim.rand(0)); _sim.salt(r.next())
    places = BUCKETSLOTS if inBucket() else SLOTS
    slots = [Slot(p) for p in places if r.chance(.6)] or [Slot(places[0])]
    faulty = _sim.faults(NET if inBucket() else IO, .5); crash = not faulty and r.chance(.5)
    def others(s): return [(x, x.digest()) for x in slots if x is not s]
    def intact(l, what):
        for x, d in l:
            if x.digest() != d: bad('other-container-changed', '%s changed %s: %r' % (what, x.path, _sim.list(x.path)))
    def restart(s, what):
        """whatever an interruption left: opening with w gives an empty container"""
        _sim.quiet(1)
        try:
            try: f = openAt(s.path, 'w', zarr_format=2)
            except Exception as e: bad('not-recoverable', '%s, then opening with mode w: %s' % (what, explain(e)[-1500:]))
            s.put('v2' if f.is_zarr else 'n5')
            s.w.observe(None, what + ', then opened with mode w')
        finally: _sim.quiet(0)
    def mutations(s, f, mode, r):
        w = s.w; w.f = f; w.r = r; w.index = 0
        for _ in range(r.below(4)):
            op = r.pick([createData, createGroup, attrs, attrs, setitem, direct, chunkop, varchunk, remove, browse, getitem])(w, r)
            if op is None: continue
            who = 'the opened file'
            g = f
            if r.chance(.25):
                g = pickle.loads(pickle.dumps(f)); who = 'an unpickled file'
            get = lambda p: g if not p else g['/'.join(p)]
            what = '%s with mode %s, %s: %s' % (s.path, mode, who, op.text)
            _sim.say('   ' + what)
            before = _sim.digest(ROOT); o = others(s)
            err = res = None
            try: res = op.run(get)
            except Exception as e: err = e
            intact(o, what)
            if mode == 'r' and not op.reads and op.chunks != set():
                if _sim.digest(ROOT) != before: bad('store-changed', '%s changed the store (%s)' % (what, short(err) if err else 'no exception'))
                if err is None: bad('not-refused', '%s was not refused' % what)
                _sim.probe('refused')
                continue
            if err is not None: bad('unexpected-exception', '%s: %s' % (what, explain(err)[-2500:]))
            if op.reads and _sim.digest(ROOT) != before: bad('store-changed', '%s changed the store' % what)
            op.check(res, w.m); op.apply(w.m)
            if w.c.kind != 'n5' and op.kind == 'create':
                q = s.path + '/' + '/'.join(op.path)
                got = 'v3' if _sim.exists(q + '/zarr.json') else 'v2' if _sim.exists(q + '/.zarray') or _sim.exists(q + '/.zgroup') else '?'
                if got != w.c.kind: bad('wrong-format', '%s: created in format %s' % (what, got))
        if s.there: w.m = w.observe(None, 'after using %s with mode %s' % (s.path, mode))
    def opening(i, r):
        s = r.pick(slots)
        mode = r.pick(['r', 'r', 'r+', 'a', 'a', 'w', 'w-', 'x'])
        if not s.there and r.chance(.5): mode = r.pick(['a', 'w', 'x', 'w-'])
        form = 6 if inBucket() else r.below(6); zf = r.pick([2, 3]); sep = r.pick(['.', '/']); flag = r.pick([True, False])
        path = s.path
        arg = pathlib.Path(path) if r.chance(.3) else path
        if s.there and not path.endswith(('.zarr', '.zr', '.n5')) and r.chance(.3): pass
        force = {1: flag, 2: False, 3: True}.get(form)
        def opener():
            if form == 0: return z5py.File(arg, mode)
            if form == 1: return z5py.File(arg, mode, use_zarr_format=flag)
            if form == 2: return z5py.N5File(arg, mode)
            if form == 3: return z5py.ZarrFile(arg, mode, dimension_separator=sep, zarr_format=zf)
            if form == 6: return z5py.S3File('bkt', path[4:], mode=mode, **({'dimension_separator': sep} if sep or zf == 2 else {}), zarr_format=zf, **connection(path))
            return z5py.File(path, mode=mode, dimension_separator=sep, zarr_format=zf)
        if inBucket() and s.there and mode != 'w': zf = 3 if s.w.c.kind == 'v3' else 2      # decides what is created, documented
        zf = zf if form in (3, 4, 5, 6) else 2; sep = sep if form in (3, 4, 5, 6) else '.'
        inferred = s.infer()
        what = 'opening %s with mode %s%s' % (path, mode, '' if force is None else ' as zarr' if force else ' as n5') + (' version %d' % zf if form > 2 else '')
        _sim.scope(i + 1); _sim.say('%d: %s (%s)' % (i, what, 'a container in ' + s.w.c.kind if s.there else 'absent'))
        wrong = force is not None and force != inferred
        refuse = RuntimeError if wrong else None
        if not refuse and mode in ('r', 'r+') and not s.there or not refuse and mode in ('x', 'w-') and s.there: refuse = OSError
        mutates = not refuse and (not s.there or mode == 'w')
        before = s.digest(); o = others(s)
        err = f = None
        if crash: _sim.capture(1)
        _sim.arm(1)
        try: f = opener()
        except Exception as e: err = e
        _sim.arm(0)
        fired = _sim.fired()
        if crash: _sim.capture(0); killed(s, mutates, o, i, what)
        _sim.note('ok' if err is None else short(err))
        intact(o, what)
        if not mutates and s.digest() != before: bad('container-changed', '%s changed it (%s)' % (what, short(err) if err else 'no exception'))
        if refuse:
            if err is None: bad('not-refused', '%s was not refused' % what)
            if not fired and not isinstance(err, refuse): bad('wrong-exception', '%s: %s' % (what, explain(err)[-1500:]))
            if not s.there and _sim.exists(path): bad('container-created', '%s created %r' % (what, _sim.list(path)))
            return
        if err is not None:
            if not fired: bad('unexpected-exception', '%s: %s' % (what, explain(err)[-2500:]))
            _sim.probe('failed')
            if mutates: restart(s, what + ' failed')
            return
        if fired: _sim.probe('returned-despite-fault')
        if mutates:
            s.put('n5' if not inferred else 'v%d' % zf, sep)
            if f.is_zarr != bool(inferred): bad('wrong-format', '%s gives a file with is_zarr %s' % (what, f.is_zarr))
        elif f.is_zarr != (s.w.c.kind != 'n5'): bad('wrong-format', '%s gives a file with is_zarr %s' % (what, f.is_zarr))
        if fired or r.chance(.3): s.w.m = s.w.observe(None, 'after ' + what)
        mutations(s, f, mode, r)
    def versions(i, r):
        """a container whose metadata names another version of its format"""
        v = r.pick([2, 3]); n5 = not inBucket() and r.chance(.5); path = ROOT + ('/v.n5' if n5 else '/v.zarr')
        _sim.quiet(1)
        if n5: _z5py.create_file(_z5py.File(path, _z5py.FileMode(_z5py.FileMode.a)), False, 2)
        else: openAt(path, 'a', v)
        name = 'attributes.json' if n5 else 'zarr.json' if v == 3 else '.zgroup'
        doc, ok = r.pick([({'n5': '1.0.0'}, 1), ({'n5': '4.1.2', 'x': 1}, 1), ({'x': 1}, 1), ({'n5': '5.0.0'}, 0), ({'n5': '10.0.0'}, 0), ({'n5': '40.1'}, 0)] if n5 else [({'zarr_format': v}, 1), ({'zarr_format': 4}, 0), ({'zarr_format': 1}, 0), ({'zarr_format': 23}, 0), ({'zarr_format': str(v)}, 0), ({}, 0), ({'n5': '2.0.0'}, 0), ({'zarr_format': None}, 0)])
        doc = dict(doc, **({'node_type': 'group'} if v == 3 and not n5 else {}))
        _sim.mkfile(path + '/' + name, json.dumps(doc).encode()); _sim.quiet(0)
        mode = r.pick(['r', 'r+', 'a', 'w', 'x', 'w-']); before = _sim.digest(path)
        what = 'opening %s, which says %s, with mode %s' % (path, json.dumps(doc), mode)
        _sim.scope(i + 1); _sim.say('%d: %s' % (i, what))
        if mode in ('x', 'w-'): ok = 0
        f = err = None
        try: f = openAt(path, mode, v)
        except Exception as e: err = e
        if mode == 'w':
            if err: bad('unexpected-exception', '%s: %s' % (what, explain(err)[-2500:]))
            if not f.is_zarr == (not n5) or len(f) or dict(f.attrs) != ({'n5': '2.0.0'} if n5 else {}): bad('wrong-format', '%s: %r' % (what, dict(f.attrs)))
        else:
            if _sim.digest(path) != before: bad('container-changed', '%s changed it (%s)' % (what, short(err) if err else 'no exception'))
            if ok and err: bad('unexpected-exception', '%s: %s' % (what, explain(err)[-2500:]))
            if not ok and not err: bad('not-refused', '%s was not refused' % what)
        _sim.quiet(1); _sim.rm(path); _sim.quiet(0)
    def killed(s, mutates, o, i, what):
        keep = copy.copy(s.w); was = s.there
        for k in _sim.snaps(4):
            _sim.scope(1000000 + i * 10000 + k); _sim.keep(1)
            p, t = _sim.snapuse(k)
            txt = 'process killed during %s after %d store changes' % (what, p)
            intact(o, txt)
            if not mutates: bad('store-changed', '%s changes the store' % what)
            restart(s, txt)
            intact(o, txt + ', then opened with mode w')
            _sim.restore(1)
        s.w = keep; s.there = was
        if was: s.w.c.open = s.reader
        _sim.snapsdone(); _sim.scope(20000 + i)
    for s in slots:                      # some containers made elsewhere, also without a telling extension
        if r.chance(.5):
            zarr = s.infer() if s.path.endswith(('.zarr', '.zr', '.n5')) else r.chance(.6)
            v = r.pick([2, 3])
            _sim.quiet(1)
            if inBucket(): zarr = True; openAt(s.path, 'a', v)
            else: _z5py.create_file(_z5py.File(s.path, _z5py.FileMode(_z5py.FileMode.a)), zarr, v)
            s.put('v%d' % v if zarr else 'n5'); _sim.quiet(0)
            w = s.w; f = s.reader('a'); w.f = f; w.index = 0
            for _ in range(r.below(3)):
                op = r.pick([createData, createGroup, attrs])(w, r)
                if op is None: continue
                op.check(op.run(lambda p: f if not p else f['/'.join(p)]), w.m); op.apply(w.m)
    n = _sim.knob('ops', 1, r.range(3, 12))
    for i in range(n):
        q = R(r.next())
        if _sim.kept(i): (versions if q.chance(.12) and not inBucket() else opening)(i, q)
    _sim.scope(30000)
    for s in slots:
        if s.there: s.w.observe(None, 'at the end')
        elif _sim.exists(s.path): bad('container-created', '%s exists at the end' % s.path)
    if _sim.fds(): bad('descriptor-leak', '%d descriptors are open at the end' % _sim.fds())

# ------------------------------------------------------------------ threads
class Worker:
    def __init__(self, env, t, seed): self.env = env; self.t = t; self.r = R(seed); self.group = {}; self.attrs = {}; self.expect = {}; self.err = None; self.handles = None
    def open(self):
        e = self.env
        if e.share == 0: return e.f
        if e.share == 1: return e.c.open('r+')
        return pickle.loads(e.pickled)
    def ds(self, f, name):
        e = self.env
        return e.objects[name] if e.share == 0 and e.sameObjects else f[name]
    def call(self, text, fn, repeat=True):
        """fn with faults; repeated without them if a fault made it fail"""
        e = self.env
        _sim.say('T%d: %s' % (self.t, text))
        before = _sim.total()
        _sim.armself(1)
        try:
            try: return fn()
            finally: _sim.armself(0)
        except Exception as x:
            if _sim.total() == before: bad('unexpected-exception', 'thread %d: %s: %s' % (self.t, text, explain(x)[-2500:]))
            _sim.probe('failed')
            if not repeat: return 'failed'
        try: return fn()
        except Exception as x: bad('not-repeatable', 'thread %d: repeating %s: %s' % (self.t, text, explain(x)[-2500:]))
    def run(self):
        try: self.work()
        except Exception as x: self.err = explain(x)
    def work(self):
        e = self.env; r = self.r
        f = self.open()
        for i in range(e.n):
            q = R(r.next())
            if not _sim.kept(self.t * 1000 + i): continue
            if q.chance(.1): f = self.open()
            self.step(f, q, i)
    def step(self, f, r, i):
        e = self.env; t = r.below(13); nt = r.pick([1, 1, 2, 3])
        if t < 7:
            name = r.pick(e.names); d = e.data[name]; k = e.width[name]
            own = slice(self.t * k, (self.t + 1) * k)
            mine = self.expect.setdefault(name, np.full((k,) + d.arr.shape[1:], d.fill, dtype=d.arr.dtype))
            unit = (d.shards or d.chunks)[0]
            a = r.below(k // unit) * unit; b = a + unit * (1 + r.below((k - a) // unit))
            if r.chance(.4): b = b - r.below(unit)
            rest = tuple(slice(None) if r.chance(.5) else slice(x, x + 1 + r.below(s - x)) for s in d.arr.shape[1:] for x in [r.below(s)])
            at = (slice(own.start + a, own.start + b),) + rest
            sel = (slice(a, b),) + rest
            ds = self.call('open ' + name, lambda: self.ds(f, name))
            if t < 4:
                v = r.below(100) + 1 if r.chance(.3) else drawArray(r, d.arr.dtype, mine[sel].shape)
                def fn():
                    if not (e.share == 0 and e.sameObjects): ds.n_threads = nt
                    ds[at] = v
                self.call('%s[%s] = ...' % (name, at), fn)
                mine[sel] = v
            elif t < 6:
                def fn():
                    if not (e.share == 0 and e.sameObjects): ds.n_threads = nt
                    return ds[at]
                x = self.call('read %s[%s]' % (name, at), fn)
                if not same(x, mine[sel]): bad('wrong-data', 'thread %d: %s%s is %s, expected %s' % (self.t, name, at, x.tolist(), mine[sel].tolist()))
            else:
                i = (own.start // d.chunks[0] + r.below(k // d.chunks[0]),) + tuple(r.below(g) for g in d.grid()[1:])
                c = d.chunk(i); cs = (slice(c[0].start - own.start, c[0].stop - own.start),) + c[1:]
                if r.chance(.5) and not d.shards:
                    data = drawArray(r, d.arr.dtype, d.chunks if ds.is_zarr else mine[cs].shape)
                    self.call('write chunk %s of %s' % (i, name), lambda: ds.write_chunk(i, data))
                    mine[cs] = data[tuple(slice(0, s) for s in mine[cs].shape)]
                else:
                    x = self.call('read chunk %s of %s' % (i, name), lambda: ds.read_chunk(i))
                    want = mine[cs]
                    if x is None: x = np.full(want.shape, d.fill, dtype=want.dtype)
                    if not same(x[tuple(slice(0, s) for s in want.shape)], want): bad('wrong-data', 'thread %d: chunk %s of %s is %s, expected %s' % (self.t, i, name, x.tolist(), want.tolist()))
        elif t == 7:
            x = self.call('read constant', lambda: f['constant'][...])
            if not same(x, e.constant): bad('wrong-data', 'thread %d: constant is %s' % (self.t, x.tolist()))
        elif t == 8:
            if not e.root: return
            x = self.call('list root', lambda: sorted(f))
            if x != e.root: bad('wrong-listing', 'thread %d: root lists %r, expected %r' % (self.t, x, e.root))
        else:
            g = 'g%d' % self.t
            if t == 9:
                k = r.pick(KEYS); v = drawJson(r)
                def fn(): f[g].attrs[k] = v
                self.call('%s.attrs[%r] = %r' % (g, k, v), fn); self.attrs[k] = json.loads(json.dumps(v))
            elif t == 10:
                x = self.call('read %s.attrs' % g, lambda: dict(f[g].attrs))
                if x != self.attrs: bad('wrong-attributes', 'thread %d: %s has %r, expected %r' % (self.t, g, x, self.attrs))
            elif t == 11:
                n = 'n%d' % i
                if r.chance(.5):
                    a = drawArray(r, r.pick(DTYPES), (r.range(1, 6), r.range(1, 4)))
                    def fn():
                        if n in f[g]: del f[g][n]
                        f[g].create_dataset(n, data=a, chunks=(2, 2), n_threads=nt)
                    self.call('create %s/%s' % (g, n), fn); self.group[n] = a
                else:
                    self.call('create group %s/%s' % (g, n), lambda: f[g].create_group(n) if n not in f[g] else self.regroup(f[g], n)); self.group[n] = None
            elif self.group:
                n = r.pick(sorted(self.group))
                def fn():
                    if n in f[g]: del f[g][n]
                self.call('del %s/%s' % (g, n), fn); del self.group[n]
    def regroup(self, g, n):
        del g[n]; g.create_group(n)

class Env: pass
def threads():
    r = R(_sim.rand(0)); _sim.salt(r.next())
    e = Env(); e.c = Container(r); T = _sim.knob('threads', 2, r.range(2, 4))
    e.n = _sim.knob('ops', 1, r.range(2, 7)); e.share = r.below(3); e.sameObjects = r.chance(.5)
    stall = _sim.knob('stall', 0, r.below(2)) and r.range(1, 30)
    faulty = _sim.faults((NET if inBucket() else IO) + ',thread-start-failure', .35) if not stall else False
    f = e.f = e.c.open('a'); e.data = {}; e.width = {}; e.names = []; e.objects = {}
    _sim.quiet(1)
    for j in range(r.range(1, 2)):
        kw = e.c.create_args(r); kw.pop('chunks', None); kw.pop('shards', None); kw.pop('shape')
        nd = r.pick([1, 2, 2, 3])
        unit = r.range(1, 3); per = r.range(1, 2); tail = tuple(r.range(1, 4) for _ in range(nd - 1))
        ch = (unit,) + tuple(r.range(1, s) for s in tail)
        if e.c.kind == 'v3' and r.chance(.5):
            m = r.range(1, 2); kw['shards'] = (unit * m,) + tuple(c * r.range(1, 2) for c in ch[1:]); step = unit * m
        else: step = unit
        n = 'd%d' % j; k = step * per
        ds = f.create_dataset(n, shape=(k * T,) + tail, chunks=ch, **kw)
        d = D(); d.fill = np.array([kw.get('fillvalue', 0)]).astype(kw['dtype'])[0]; d.arr = np.full(ds.shape, d.fill, dtype=kw['dtype']); d.chunks = ds.chunks; d.shards = ds.shards
        e.data[n] = d; e.width[n] = k; e.names.append(n); e.objects[n] = ds
        if e.sameObjects and r.chance(.3): ds.n_threads = r.range(1, 3)
    e.constant = np.arange(12, dtype='int32').reshape(3, 4)
    f.create_dataset('constant', data=e.constant, chunks=(2, 3))
    for t in range(T): f.create_group('g%d' % t)
    solo = None
    if stall: solo = f.create_dataset('solo', data=e.constant + 1, chunks=(1, 2)); f.create_group('visited').create_dataset('x', data=e.constant)
    e.root = sorted(f); e.pickled = pickle.dumps(f)
    _sim.quiet(0)
    ws = [Worker(e, t, r.next()) for t in range(T)]
    _sim.scope(1)
    style = r.below(11); got = []
    if stall:
        if style in (5, 6): e.root = None
        def held():
            try:
                g = e.c.open('r+'); o = g['solo']; o.n_threads = r.pick([1, 2, 3])
                _sim.stall(stall)
                if style == 0: got.append(o[...])
                elif style == 1: o[...] = e.constant + 1
                elif style == 2: o[...] = 1; o[...] = e.constant + 1
                elif style == 3: o.attrs['k'] = 1; got.append(o.attrs['k'])
                elif style == 4: got.append(sorted(g)); got.append('solo' in g); g['solo']
                elif style == 5: g.require_group('held'); del g['held']
                elif style == 6: g.create_dataset('held', data=e.constant, chunks=(2, 2)); del g['held']
                elif style == 7: got.append(o.read_chunk((0, 0))); o.write_chunk((0, 0), np.array([[1, 2]], dtype='int32')); got.append(o.chunk_exists((0, 1)))
                elif style == 8: e.c.open('r'); pickle.loads(pickle.dumps(o))
                elif style == 9: [openAt(ROOT + '/new.n5', 'w') for _ in (0, 1)]
                else: got.append(o.attrs.get('q')); del o.attrs['q']; g['visited'].visititems(lambda n, x: None)
            except Exception as x: got.append(explain(x)); ws[0].err = 'stalled thread: ' + explain(x)
        h = threading.Thread(target=held); _sim.say('a thread in a call of kind %d waits for storage at its I/O operation %d' % (style, stall)); h.start()
    ts = [threading.Thread(target=w.run) for w in ws]
    for t in ts: t.start()
    for t in ts: t.join()
    if stall:
        _sim.probe('stalled' if _sim.stalling() else 'not-stalled')
        _sim.unstall(); h.join()
    for w in ws:
        if w.err: bad('unexpected-exception', 'thread %d: %s' % (w.t, w.err))
    _sim.scope(2); _sim.quiet(1); _sim.oracle(1)
    g = e.c.open('r')
    for n in e.names:
        d = e.data[n]; want = d.arr.copy(); k = e.width[n]
        for w in ws:
            if n in w.expect: want[w.t * k:(w.t + 1) * k] = w.expect[n]
        x = g[n][...]
        if not same(x, want): bad('wrong-data', 'at the end %s is %s, expected %s' % (n, x.tolist(), want.tolist()))
    for w in ws:
        x = g['g%d' % w.t]
        if dict(x.attrs) != w.attrs: bad('wrong-attributes', 'at the end g%d has %r, expected %r' % (w.t, dict(x.attrs), w.attrs))
        if sorted(x) != sorted(w.group): bad('wrong-listing', 'at the end g%d lists %r, expected %r' % (w.t, sorted(x), sorted(w.group)))
        for n, a in w.group.items():
            if a is None and not isinstance(x[n], z5py.Group) or a is not None and not same(x[n][...], a): bad('wrong-data', 'at the end g%d/%s is %r' % (w.t, n, x[n]))
    if stall:
        if not same(g['solo'][...], e.constant + 1): bad('wrong-data', 'at the end solo is %s' % g['solo'][...].tolist())
    elif sorted(g) != e.root: bad('wrong-listing', 'at the end the root lists %r' % sorted(g))
    _sim.quiet(0)
    if _sim.fds(): bad('descriptor-leak', '%d descriptors are open at the end' % _sim.fds())
