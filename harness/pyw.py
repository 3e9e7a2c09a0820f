# B02: the Python module driven from Python; everything it hands out is compared with the C library
# (through the adapter linked into the same shared object) and with plain Python computations.
import sys, os, gc, ctypes, random, hashlib, copy
import numpy as np
PROP, SEED, SHARD, SHARDS, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
SO = sys.argv[6]; LEAK = sys.argv[7] == '1'
EV = os.open(os.environ['EV'], os.O_WRONLY | os.O_CREAT | os.O_APPEND) if 'EV' in os.environ else 2
counters, vcount, samples = {}, {}, [0]
def line(s): os.write(EV, (s.replace('\n', ' ') + '\n').encode('utf8', 'replace'))
def count(n, v=1): counters[n] = counters.get(n, 0) + v
class Bad(Exception):
    def __init__(self, key, what): self.key, self.what = key, what
def check(c, key, what, *a):
    count('observations')
    if not c: raise Bad(key, what % a if a else what)

L = ctypes.CDLL(SO)
P, I64, D = ctypes.POINTER, ctypes.c_int64, ctypes.c_double
class Snap(ctypes.Structure):
    _fields_ = [('n', I64), ('minPoints', I64), ('core', P(D)), ('dist', P(D)), ('nA', I64), ('nB', I64), ('nW', I64), ('ea', P(I64)), ('eb', P(I64)), ('ew', P(D)),
                ('nclusters', I64), ('clusters', ctypes.c_void_p), ('nlines', I64), ('lineKey', P(I64)), ('lineWeight', P(D)), ('lineLabels', P(P(I64))),
                ('hasLabels', ctypes.c_int), ('labels', P(I64)), ('hasScores', ctypes.c_int), ('score', P(D)), ('scoreCore', P(D)), ('scoreId', P(I64))]
L.ad_new.restype = ctypes.c_void_p; L.ad_new.argtypes = [I64]
L.ad_run.argtypes = [ctypes.c_void_p, ctypes.c_void_p, I64, I64, ctypes.c_int, ctypes.c_int]
L.ad_rerun.argtypes = [ctypes.c_void_p, I64]; L.ad_destroy.argtypes = [ctypes.c_void_p]
L.ad_snapshot.restype = P(Snap); L.ad_snapshot.argtypes = [ctypes.c_void_p, I64]; L.ad_snap_free.argtypes = [P(Snap)]
DT = {'i': 0, 'd': 1, 'f': 2, 'l': 3, 'h': 4}
libc = ctypes.CDLL(None)
if LEAK: libc.mcount_blocks.restype = libc.mcount_bytes.restype = ctypes.c_long
def used(): gc.collect(); return libc.mcount_blocks(), libc.mcount_bytes()

def reference(a, mp, runs_mp):
    """labels and hierarchy the C library computes for the data: a run with runs_mp, then re-runs"""
    b = np.ascontiguousarray(a).astype(a.dtype.newbyteorder('='), copy=True)
    rows = b.shape[0]; cols = 1 if b.ndim == 1 else b.shape[1]
    o = L.ad_new(runs_mp)
    try:
        rc = L.ad_run(o, b.ctypes.data, rows, cols, 1, DT[b.dtype.char])
        if mp != runs_mp: rc = L.ad_rerun(o, mp)
        s = L.ad_snapshot(o, 0).contents
        lab = [s.labels[i] for i in range(s.n)]
        h = {s.lineKey[k]: [s.lineLabels[k][i] for i in range(s.n)] for k in range(s.nlines)}
        L.ad_snap_free(ctypes.pointer(s)); return rc, lab, h
    finally: L.ad_destroy(o)

def gen(r):
    n = r.choice([1, 2, 3, r.randint(4, 12), r.randint(5, 40), r.randint(5, 40), r.randint(20, 120)])
    if r.random() < .01: n = r.choice([700, r.randint(900, 1800)]); count('large_cases')
    c = r.choice([1, 1, 2, 2, 3, 5, r.randint(1, 12)])
    if r.random() < .01: c = 0
    k = r.randint(1, 5); kind = r.randint(0, 4); g = np.random.RandomState(r.getrandbits(31))
    if kind == 0: v = g.randint(-9, 10, (n, c)).astype(float)
    elif kind == 1: v = g.rand(n, c) * 100
    elif kind == 2: v = (g.randint(0, k, (n, 1)) * 37.0) + g.randn(n, c)
    elif kind == 3: v = np.repeat(g.randint(-50, 50, ((n + 3) // 4, c)).astype(float), 4, axis=0)[:n]
    else: v = np.cumsum(g.randint(1, 9, (n, c)).astype(float), axis=0)
    ch = r.choice('ddfilh'); dt = np.dtype({'d': 'f8', 'f': 'f4', 'i': 'i4', 'l': 'i8', 'h': 'i2'}[ch])
    if ch in 'df' and r.random() < .1: v = v * 10.0 ** r.randint(-8, 8)
    if ch == 'l' and r.random() < .2: v = v * 1e9
    a = np.rint(v * (100 if ch != 'h' else 50)).astype(dt) if ch in 'ilh' else v.astype(dt)
    lay = r.randint(0, 11); name = 'c'
    if c == 1 and r.random() < .6: a = np.ascontiguousarray(a[:, 0]); name = '1-d'
    if lay == 1: a = np.asfortranarray(a); name += ' fortran'
    elif lay == 2: b = np.zeros((2 * n,) + a.shape[1:], dt); b[::2] = a; a = b[::2]; name += ' strided'
    elif lay == 3: a = a[::-1].copy()[::-1]; name += ' reversed'
    elif lay == 4 and a.ndim == 2: b = np.full((n, 3 * c + 2), 77, dt); b[:, 1:1 + 2 * c:2] = a; a = b[:, 1:1 + 2 * c:2]; name += ' column slice'
    elif lay == 5: a = a.astype(dt.newbyteorder('S')); name += ' byte swapped'
    elif lay == 6: a = a.copy(); a.flags.writeable = False; name += ' read only'
    elif lay == 7:
        raw = bytearray(a.nbytes + 1); raw[1:] = a.tobytes(); b = np.frombuffer(raw, dtype=np.uint8)[1:].view(dt).reshape(a.shape) if a.nbytes else a; a = b; name += ' unaligned'
    elif lay == 8: a = np.matrix(a); name += ' matrix'
    elif lay == 9 and a.ndim == 2: a = np.broadcast_to(a[:1], (n, c)); name += ' broadcast'
    elif lay == 10 and a.ndim == 2: a = a.T.copy().T; name += ' transposed'
    elif lay == 11: s = np.zeros(a.shape, [('x', 'i1'), ('v', dt), ('y', 'i2')]); s['v'] = a; a = s['v']; name += ' field'
    return a, '%s %s %s' % (a.dtype.str, 'x'.join(map(str, a.shape)), name)
def gen_mp(r, n): return r.choice([2, r.randint(2, 6), r.randint(2, 6), r.randint(2, max(2, n)), max(2, n), n + 1 if n > 1 else 2, n + 4])

class Model:
    def __init__(s, mp): s.mp, s.n, s.lab, s.h, s.fresh = mp, None, None, None, True
class Sub(__import__('PyHdbscan').PyHdbscan): extra = None
import PyHdbscan
T = PyHdbscan.PyHdbscan

def observe(o, m, hold, r, full):
    lab = o.labels
    check(type(lab) is list and lab == m.lab, 'labels', 'labels are %s, the C library gives %s', str(lab)[:300], str(m.lab)[:300])
    check(all(type(x) is int for x in lab), 'labels-type', 'labels are not ints')
    check((o.rows, o.minPoints) == (m.n, m.mp) and o.cols == m.cols, 'members', 'rows, cols, minPoints are %d, %d, %d instead of %d, %d, %d', o.rows, o.cols, o.minPoints, m.n, m.cols, m.mp)
    hold.append((lab, list(m.lab), 'labels'))
    if not full: return
    rng = [(0, m.n)]
    for _ in range(r.randint(0, 2)): a, b = sorted((r.randint(0, m.n), r.randint(0, m.n))); rng.append((a, b))
    for a, b in rng:
        d = o.getClusterMap(a, b); want = {}
        for i in range(a, b): want.setdefault(m.lab[i], []).append(i)
        check(type(d) is dict and set(d) == set(want), 'map-keys', 'range %d..%d: keys %s, labels %s', a, b, sorted(d), sorted(want))
        for k in want:
            v = d[k]; check(isinstance(v, np.ndarray) and v.dtype.kind == 'i' and v.ndim == 1 and v.tolist() == want[k], 'map-list', 'range %d..%d label %d: %r instead of %s', a, b, k, v, want[k])
        check(o.clusterMap is d, 'map-member', 'clusterMap is not the map handed out')
        count('maps'); hold.append((d, {k: np.array(v.tolist(), v.dtype) for k, v in d.items()}, 'map'))
    rc = o.getHierarchies(); h = o.hierarchy
    check(rc == 1, 'hierarchy-rc', 'getHierarchies returned %r', rc)
    check(type(h) is dict and set(h) == set(m.h), 'hierarchy-keys', 'lines %s, the C library has %s', sorted(h)[:40], sorted(m.h)[:40])
    for k in m.h: check(h[k].tolist() == m.h[k], 'hierarchy', 'line %d is %s, in C %s', k, str(h[k].tolist())[:200], str(m.h[k])[:200])
    count('hierarchies'); hold.append((h, {k: np.array(v.tolist(), v.dtype) for k, v in h.items()}, 'hierarchy'))

def same(a, b):
    if isinstance(a, dict): return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)
    return a == b

def bad_calls(r, o, m):
    """one invalid call; returns its description"""
    n = m.n if m is not None and m.n is not None else 5
    unrun = m is None or m.n is None
    f = [('run()', lambda: o.run()), ('run(None)', lambda: o.run(None)), ('run(list)', lambda: o.run([[1.0, 2.0], [3.0, 4.0]])), ('run(str)', lambda: o.run('abc')), ('run(int)', lambda: o.run(7)),
         ('run(a, b)', lambda: o.run(np.ones((4, 2)), 3)), ('run(0-d)', lambda: o.run(np.array(3.0))), ('run(3-d)', lambda: o.run(np.ones((4, 2, 2)))), ('run(4-d)', lambda: o.run(np.zeros((2, 1, 3, 1), 'i4'))),
         ('run(empty)', lambda: o.run(np.zeros((0,)))), ('run(no rows)', lambda: o.run(np.zeros((0, 3)))), ('run(3-d empty)', lambda: o.run(np.zeros((0, 3, 2)))),
         ('run(scalar)', lambda: o.run(np.float64(3))), ('run(type)', lambda: o.run(np.ndarray)), ('run(bytes)', lambda: o.run(b'12345678')), ('run(memoryview)', lambda: o.run(memoryview(np.ones(4)))),
         ('rerun()', lambda: o.rerun()), ('rerun(1)', lambda: o.rerun(1)), ('rerun(0)', lambda: o.rerun(0)), ('rerun(-3)', lambda: o.rerun(-3)), ('rerun(-2^63)', lambda: o.rerun(-2 ** 63)), ('rerun(2^32+3)', lambda: o.rerun(2 ** 32 + 3)), ('rerun(2^33)', lambda: o.rerun(2 ** 33)),
         ('rerun(2^70)', lambda: o.rerun(2 ** 70)), ('rerun(2.5)', lambda: o.rerun(2.5)), ('rerun(str)', lambda: o.rerun('3')), ('rerun(None)', lambda: o.rerun(None)), ('rerun(3, 4)', lambda: o.rerun(3, 4)),
         ('map()', lambda: o.getClusterMap()), ('map(0)', lambda: o.getClusterMap(0)), ('map(-1, n)', lambda: o.getClusterMap(-1, n)), ('map(0, n+1)', lambda: o.getClusterMap(0, n + 1)), ('map(n, 0)', lambda: o.getClusterMap(n, 0)), ('map(n+1, n+2)', lambda: o.getClusterMap(n + 1, n + 2)),
         ('map(0, -1)', lambda: o.getClusterMap(0, -1)), ('map(0, 2^31-1)', lambda: o.getClusterMap(0, 2 ** 31 - 1)), ('map(0, 2^32+1)', lambda: o.getClusterMap(0, 2 ** 32 + 1)), ('map(str)', lambda: o.getClusterMap('0', n)), ('map(float)', lambda: o.getClusterMap(0.0, float(n))), ('map(-2^31, -2^31)', lambda: o.getClusterMap(-2 ** 31, -2 ** 31)),
         ('init()', lambda: o.__init__()), ('init(1)', lambda: o.__init__(1)), ('init(-1)', lambda: o.__init__(-1)), ('init(0)', lambda: o.__init__(0)), ('init(str)', lambda: o.__init__('4')), ('init(2^32)', lambda: o.__init__(2 ** 32)), ('init(2^32+2)', lambda: o.__init__(2 ** 32 + 2)), ('init(3, 4)', lambda: o.__init__(3, 4)), ('init(k=3)', lambda: o.__init__(k=3)), ('init(None)', lambda: o.__init__(None))]
    for t in ('bool', 'u1', 'i1', 'u2', 'u4', 'u8', 'f2', 'c8', 'c16', 'O', 'S8', 'U4', 'M8[s]', 'm8[s]', 'V8', 'f16'):
        if np.dtype(t).kind != 'V': f.append(('run(%s)' % t, lambda t=t: o.run(np.zeros((6, 2), t))))
        else: f.append(('run(%s)' % t, lambda: o.run(np.zeros((6, 2), 'V8'))))
    f.append(('run(struct)', lambda: o.run(np.zeros(6, [('a', 'f8'), ('b', 'f8')]))))
    if unrun:
        f += [('rerun(3) early', lambda: o.rerun(3)), ('map(0, 0) early', lambda: o.getClusterMap(0, 0)), ('map(0, 1) early', lambda: o.getClusterMap(0, 1)), ('hierarchies early', lambda: o.getHierarchies())] * 3
        if m is None or m.fresh: f += [('labels early', lambda: o.labels), ('clusterMap early', lambda: o.clusterMap), ('hierarchy early', lambda: o.hierarchy)] * 3
    name, fn = r.choice(f)
    if fn is None: return None
    return name, fn

def refuse(r, o, m):
    b = bad_calls(r, o, m)
    if b is None: return ''
    try: v = b[1]()
    except SystemError as e: raise Bad('invalid-error', '%s: the interpreter reports %s' % (b[0], e))
    except Exception: count('refusals'); count('observations'); return b[0]
    except BaseException as e: raise Bad('invalid-call', '%s raised %r' % (b[0], e))
    raise Bad('invalid-accepted', '%s was accepted and returned %s' % (b[0], str(v)[:100]))

def case(k):
    r = random.Random('%s/%d/%d' % (PROP, SEED, k)); nobj = r.choice([1, 1, 2, 3]); steps = r.randint(2, 12)
    hist = []; objs = []; hold = []; hid = hashlib.sha1()
    line('B %s:%d:%d %d objects, %d steps' % (PROP, SEED, k, nobj, steps)); count('evaluations')
    def log(s): hist.append(s); hid.update(s.encode())
    try:
        for i in range(nobj):
            mp = gen_mp(r, r.randint(2, 20)); z = r.random()
            if z < .08: objs.append([T.__new__(T), None]); log('new%d(bare)' % i)
            elif z < .2: s = Sub(minPoints=mp); s.extra = [i]; objs.append([s, Model(mp)]); log('new%d(sub %d)' % (i, mp))
            else: objs.append([T(mp), Model(mp)]); log('new%d(%d)' % (i, mp))
        for st in range(steps):
            i = r.randrange(len(objs)); o, m = objs[i]; z = r.random()
            if m is None:
                if z < .6: log('%d:%s' % (i, refuse(r, o, m)))
                elif z < .75:
                    try: o.run(np.ones((4, 2))); raise Bad('invalid-accepted', 'run of an object that was not initialised was accepted')
                    except Bad: raise
                    except Exception: count('refusals'); log('%d:bare run' % i)
                else: mp = gen_mp(r, 8); o.__init__(mp); objs[i][1] = Model(mp); log('%d:init(%d)' % (i, mp))
                continue
            if z < .42 or (m.n is None and z < .7):
                a, desc = gen(r); rc0 = sys.getrefcount(a); before = a.tobytes(); log('%d:run(%s)' % (i, desc)); hid.update(before)
                want = reference(a, m.mp, m.mp); rc = o.run(a); count('runs')
                check(rc == want[0], 'run-rc', 'run returned %r, in C %r', rc, want[0])
                check(sys.getrefcount(a) == rc0, 'data-refcount', 'the reference count of the data set went from %d to %d', rc0, sys.getrefcount(a))
                check(a.tobytes() == before, 'data-changed', 'the data set was modified')
                m.n, m.cols, m.lab, m.h, m.data, m.base = a.shape[0], 1 if a.ndim == 1 else a.shape[1], want[1], want[2], np.array(a, subok=False), m.mp
                if r.random() < .3 and a.flags.writeable: a[...] = 3; log('overwrite')
                del a; observe(o, m, hold, r, r.random() < .6)
            elif z < .58 and m.n is not None:
                mp = gen_mp(r, m.n); log('%d:rerun(%d)' % (i, mp)); want = reference(m.data, mp, m.base)
                rc = o.rerun(mp); count('reruns'); check(rc == want[0], 'rerun-rc', 'rerun returned %r, in C %r', rc, want[0]); m.mp, m.lab, m.h = mp, want[1], want[2]; observe(o, m, hold, r, r.random() < .6)
            elif z < .62:
                mp = gen_mp(r, 9); log('%d:init(%d)' % (i, mp)); o.__init__(mp); objs[i][1] = Model(mp); objs[i][1].fresh = False; count('reinitialisations')
            elif z < .66 and m.n is not None:
                log('%d:mutate' % i); d = o.getClusterMap(0, m.n)
                for v in d.values(): v[...] = -5
                d.clear(); o.labels.clear() if r.random() < .3 else None
                hold[:] = [h for h in hold if h[0] is not d and h[0] is not o.labels]
                if not o.labels: o.labels = list(m.lab)
                observe(o, m, hold, r, True)
            elif z < .7 and m.n is not None:
                attr = r.choice(['labels', 'clusterMap', 'hierarchy']); log('%d:del %s' % (i, attr))
                if hasattr(o, attr): delattr(o, attr)
                check(not hasattr(o, attr), 'del', 'the attribute is still there')
                if attr == 'labels': o.rerun(m.mp); want = reference(m.data, m.mp, m.base); m.lab, m.h = want[1], want[2]
                observe(o, m, hold, r, True)
            elif z < .76 and len(objs) > 1: log('del %d' % i); del objs[i]; o = m = None; gc.collect(); count('deletions')
            elif z < .95:
                log('%d:%s' % (i, refuse(r, o, m)))
                if m.n is not None: observe(o, m, hold, r, r.random() < .5)
            else:
                for oo, mm in objs:
                    if mm is not None and mm.n is not None: observe(oo, mm, hold, r, True)
            for j, (oo, mm) in enumerate(objs):
                if mm is not None and mm.n is not None: check(oo.labels == mm.lab, 'independence', 'after %s the labels of object %d changed', hist[-1], j)
        o = m = oo = mm = None
        del objs; gc.collect()
        junk = [np.full(200, 7) for _ in range(40)]
        for live, want, what in hold: count('held_results'); check(same(live, want), 'held-' + what, 'a %s handed out earlier changed', what)
        del junk
        if LEAK and k % 5 == 0: leak(r, log)
    except Bad as b:
        vcount[b.key] = vcount.get(b.key, 0) + 1
        if vcount[b.key] <= 5: line('V %s\t%s:%d:%d\t%s {%s}' % (b.key, PROP, SEED, k, b.what, '; '.join(hist)[-900:]))
    if len(hist) > 2: line('N ' + hid.hexdigest()[:16])
    if samples[0] < 3: samples[0] += 1; line('S ' + '; '.join(hist)[:600])

def leak(r, log):
    which = r.randint(0, 6); a, desc = gen(r); n = a.shape[0]; mp = r.randint(2, 5)
    if n > 60 or n < 2: a = np.arange(40.0).reshape(20, 2); n = 20
    if r.random() < .08: n = 2 * r.randint(270, 330); a = np.cumsum(np.arange(n) % 2 * 900.0 + np.arange(n) % 2 * np.arange(n) + 1 + np.arange(n) * .001).reshape(n, 1); desc = '%d pairs' % (n // 2); count('large_repetitions') # also many hierarchy lines and labels
    o = T(mp); o.run(a)
    def bad():
        for f in (lambda: o.run(np.zeros((0, 2))), lambda: o.run(np.zeros((2, 2, 2))), lambda: o.run('x'), lambda: o.run(np.zeros(3, bool)), lambda: o.rerun(0), lambda: o.getClusterMap(3, 1), lambda: T(1), lambda: T('x'), lambda: o.run(np.array(2.0))):
            try: f()
            except Exception: pass
    class Err(np.ndarray):
        pass
    ops = [lambda: o.run(a), lambda: o.rerun(mp), lambda: o.getClusterMap(0, n), lambda: o.getHierarchies(), lambda: T(mp), lambda: (T(mp).run(a), None), bad, lambda: o.__init__(mp)]
    names = ['run', 'rerun', 'getClusterMap', 'getHierarchies', 'new', 'new+run', 'refused calls', 'init']
    def ninit(): o.__init__(mp); o.run(a)
    if which == 6: which = r.choice([6, 7])
    op = ninit if which == 7 else ops[which]; log('repeat ' + names[which])
    for _ in range(12): op()
    u = [used()]
    for b in range(3):
        for _ in range(15): op()
        u.append(used())
    count('repetitions', 45)
    grow = [(u[i + 1][0] - u[i][0], u[i + 1][1] - u[i][1]) for i in range(3)]
    check(not (all(g[0] >= 15 for g in grow) or all(g[1] >= 15 * 256 for g in grow)), 'leak-' + names[which].replace(' ', '-').replace('+', '-'), 'live blocks and bytes after 0, 15, 30, 45 repetitions of %s on %s: %s', names[which], desc, u)

only = int(os.environ.get('ONLY', -1)); skip = int(os.environ.get('SKIP', -1))
for k in range(SHARD, COUNT, SHARDS):
    if (only >= 0 and k != only) or k <= skip: continue
    case(k)
for n, v in counters.items(): line('C %s %d' % (n, v))
line('D'); sys.stdout.flush(); os._exit(0)
