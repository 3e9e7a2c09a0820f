"""The checks, one function per property."""
import os, sys, re, subprocess
import build, driver
from build import program, HARN, BUILD
from driver import Job

CHECKS = {}
def check(pid):
    def deco(f): CHECKS[pid] = f; return f
    return deco

GB = 1 << 30
DATA_RULE = ('random data sets (16 shapes: blobs, grids, duplicates, identical points, chains, nested and tied structures, offsets, scales; all element types; 1..24 columns) '
             'with minPts from 2 to n+5 and 1-4 threads; every published value is compared with an independent reference. ')

def core_jobs(c, quick, thorough, asan_share=0.12, configs=('default',), big=True):
    jobs = []
    for cfg in configs:
        opt = program('core', 'opt', harness=('core.cpp',), config=cfg)
        asan = program('core', 'asan', harness=('core.cpp',), config=cfg)
        nq = c.n(quick, thorough)
        tag = '' if cfg == 'default' else '-' + cfg
        jobs += c.shards('opt' + tag, opt, nq, 6, mem=6 * GB, timeout=c.n(200, 1500))
        jobs += c.shards('asan' + tag, asan, max(40, int(nq * asan_share)), 6, timeout=c.n(240, 1500), seedoff=1000003)
        if c.prop in ('C15', 'C16', 'C17'):
            dbg = program('core', 'asan', harness=('core.cpp',), config=cfg, debug=True); jobs += c.shards('debug' + tag, dbg, max(40, int(nq * asan_share)), 2, timeout=c.n(240, 1500), seedoff=2000003)
    return jobs

CORE = {
    'C01': (20000, 200000, 'Non-trivial: at least two points at a non-zero distance; counted by data hash.'),
    'C02': (20000, 200000, 'Non-trivial: more than two points; counted by data and minPts.'),
    'C03': (20000, 200000, 'Non-trivial: more than two points; counted by data and minPts.'),
    'C04': (20000, 200000, 'Non-trivial: more than two hierarchy lines; counted by data and minPts.'),
    'C05': (20000, 200000, 'Non-trivial: the root splits; counted by data and minPts.'),
    'C06': (20000, 200000, 'Non-trivial: the root splits; counted by data and minPts.'),
    'C07': (20000, 200000, 'Non-trivial: more than one hierarchy line; counted by data and minPts.'),
    'C08': (8000, 60000, 'A case is a random history of 2-8 operations over 1-3 data sets. Non-trivial: more than two operations; counted by history.'),
    'C11': (20000, 200000, 'A case is a data set and a transformed presentation of it. Non-trivial: more than one cluster besides the root; counted by data, minPts and relation.'),
    'C15': (20000, 200000, 'Non-trivial: infinite stability occurs or some core distance is zero; counted by data and minPts.'),
    'C16': (10000, 80000, 'Non-trivial: the root splits; counted by data and minPts.'),
}
def core_check(pid):
    q, t, rule = CORE[pid]
    def f(c):
        c.rule = DATA_RULE + rule
        c.assumptions = ['finite coordinates whose squared differences neither overflow nor underflow the distance type', 'gcc builds with the default types; float comparisons of derived values allow rounding']
        jobs = core_jobs(c, q, t)
        opt = program('core', 'opt', harness=('core.cpp',))
        jobs += c.shards('thousands', opt, c.n(14, 56), 4, extra=[5000, 2000] if pid != 'C08' else [2400, 1200], mem=8 * GB, timeout=c.n(620, 2400), seedoff=53) # also what comes after a few thousand points
        if pid in ('C03', 'C04', 'C05', 'C06', 'C07'): # more points than 15 bits count
            jobs = c.shards('line', program('core', 'opt', harness=('core.cpp',), config='float'), 1, 1, extra=[80, 33000, 34000, 'line'], mem=8 * GB, timeout=620, seedoff=71) + c.shards('flat', program('core', 'opt', harness=('core.cpp',), config='float'), c.n(2, 12), 2, extra=[80, 8300, 14000, 'flat'], mem=8 * GB, timeout=620, seedoff=73) + jobs
        c.run(jobs); c.need += ['large_cases']
        if c.tier == 'thorough':
            opt = program('core', 'opt', harness=('core.cpp',))
            c.run(c.shards('large', opt, 240 if pid not in ('C08', 'C11', 'C16') else 100, 8, extra=[600], mem=8 * GB, timeout=2400))
    return f
for p in CORE: CHECKS[p] = core_check(p)

@check('C17')
def c17(c):
    c.rule = DATA_RULE + 'Repeated for eight further number type configurations. Non-trivial: the root splits; counted by data and minPts. Every third case compares the partition between configurations.'
    c.assumptions = ['partitions are compared unless stabilities tie up to rounding']
    jobs = []
    for cfg in build.CONFIGS:
        opt = program('core', 'opt', harness=('core.cpp',), config=cfg)
        jobs += c.shards('opt-' + cfg, opt, c.n(700, 12000), 2, mem=6 * GB, timeout=c.n(240, 1500))
        if cfg != 'default' and (cfg not in ('mixed1', 'mixed2', 'mixed3', 'fushort', 'fulong') or c.tier == 'thorough'):
            asan = program('core', 'asan', harness=('core.cpp',), config=cfg)
            jobs += c.shards('asan-' + cfg, asan, c.n(60, 1500), 2, timeout=c.n(240, 1500), seedoff=1000003)
    kw = dict(harness=('ana.cpp',), libharness=('adapter.c', 'anax.cpp'), plain_c=('wrap.c',), link=WRAP)
    for cfg in build.CONFIGS:
        if cfg == 'default': continue
        ana = program('ana', 'opt', config=cfg, **kw)
        for p, k in (('A01', 400), ('A02', 250), ('A03', 250), ('A04', 250), ('A05', 120)): jobs += c.shards('%s_%s' % (p, cfg), ana, c.n(k, 12 * k), 1, prop=p, mem=6 * GB, timeout=c.n(240, 1500), seedoff=31)
    jobs += c.shards('opt-debug', program('core', 'opt', harness=('core.cpp',), debug=True), c.n(700, 12000), 2, mem=6 * GB, timeout=c.n(240, 1500)) # the same cases as opt-default
    c.run(jobs)
    base = c.plines.get('opt-default', {}); cmp = 0
    for name, d in sorted(c.plines.items()):
        for case, (fl, h) in d.items():
            if case in base and fl == 'sure' and base[case][0] == 'sure':
                cmp += 1
                if base[case][1] != h:
                    c.violation('partition-' + name.split('-')[1], case, 'the partition of integer data differs from the default configuration (%s)' % name, [j for j in jobs if j.name.startswith(name)][0])
    c.counters['partitions_compared'] = cmp; c.need.append('partitions_compared')

def tsan_post(c, job, rc, err):
    """turns the thread sanitizer's reports into violations"""
    import re
    for block in err.split('=================='):
        m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]+)', block)
        if not m: continue
        kind = m.group(1).strip().replace(' ', '-')
        fr = []
        for part in re.split(r'\n\s*\n', block):
            if not re.search(r'^\s+(Previous |Read |Write |Atomic |Mutex |Thread T\d+ .*leaked|Signal)', part, re.M | re.I) and 'of size' not in part: continue
            f = re.search(r'#\d+ (\w+)[^\n]*/(?:src|modules|include)/', part)
            if f: fr.append(re.sub(r'\._omp_fn.*', '', f.group(1)))
        if not fr:
            if 'harness' in block and '/repo' not in block: continue
        c.counters['race_reports'] = c.counters.get('race_reports', 0) + 1
        c.violation('race-' + kind + ':' + '/'.join(sorted(set(fr[:2]))), 'see detail', block.strip()[:3000], job)

def tsan_program(name, **kw):
    return program(name, 'tsan', harness=('sched.cpp',), libharness=('adapter.c', 'cx.cpp', 'anax.cpp'), plain_c=('gomp_shim.c',), **kw)

@check('C09')
def c09(c):
    c.rule = ('a case is a random data set and two minPts values: run and re-run under several thread counts (2..64), with the real OpenMP runtime and with a replacement that executes one thread at a time in a random order '
              '(switching at region starts, critical sections, barriers and chunk boundaries) or delays threads at these points; all results compared bit for bit with one thread. Non-trivial: more than four points; counted by data and minPts.')
    real = program('sched', 'opt', harness=('sched.cpp',), libharness=('adapter.c', 'anax.cpp')); shim = program('sched', 'shim', harness=('sched.cpp',), libharness=('adapter.c', 'anax.cpp'), plain_c=('gomp_shim.c',))
    c.run(c.shards('openmp', real, c.n(480, 8000), 4, extra=[60], mem=12 * GB, timeout=c.n(240, 1800)) + c.shards('schedules', shim, c.n(280, 6000), 4, extra=[50], mem=12 * GB, timeout=c.n(240, 1800), seedoff=77)
          + c.shards('openmp-large', real, c.n(7, 60), 3, extra=[2200, 700], env={'OMP_WAIT_POLICY': 'passive'}, mem=12 * GB, timeout=c.n(620, 2400), seedoff=53) + c.shards('schedules-large', shim, c.n(6, 60), 3, extra=[700, 300], mem=12 * GB, timeout=c.n(620, 2400), seedoff=54))
    c.need += ['executions', 'token_switches', 'large_cases']
    c.assumptions = ['schedules switch between threads at synchronisation points; interleavings inside an iteration are covered by C10 (no data race means they do not matter)']

@check('C10')
def c10(c):
    c.rule = ('a case is a run, a re-run and the cluster analysis (C and C++) of a random data set with 2-12 threads under the thread sanitizer, with a runtime whose only happens-before edges are those of OpenMP. '
              'Non-trivial: more than four points; counted by data and minPts.')
    exe = tsan_program('race')
    c.run(c.shards('tsan-large', exe, c.n(7, 40), 3, extra=[900, 400], timeout=c.n(620, 2400), post=tsan_post, seedoff=53) + c.shards('tsan', exe, c.n(600, 8000), 8, extra=[40], timeout=c.n(300, 2400), post=tsan_post))
    c.need += ['parallel_regions', 'large_cases']
    c.assumptions = ['gcc thread sanitizer; pthread based OpenMP runtime of our own (gomp_shim.c)']

@check('C12')
def c12(c):
    c.rule = ('a case is 2-6 threads, each working on its own object (run, re-run, analyse, print, export, clean, destroy) over shared read-only data, compared with the same steps alone; half the cases under the thread sanitizer. Non-trivial: every case; counted by plan and data.')
    real = program('sched', 'opt', harness=('sched.cpp',), libharness=('adapter.c', 'anax.cpp')); exe = tsan_program('race')
    c.run(c.shards('real', real, c.n(3000, 30000), 3, extra=[50], mem=12 * GB, timeout=c.n(240, 1800)) + c.shards('tsan', exe, c.n(500, 6000), 5, extra=[30], timeout=c.n(300, 2400), post=tsan_post, seedoff=5)
          + c.shards('real-large', real, c.n(16, 120), 2, extra=[1800, 600], env={'OMP_WAIT_POLICY': 'passive'}, mem=12 * GB, timeout=c.n(620, 2400), seedoff=53))
    c.need += ['comparisons', 'parallel_regions', 'printings', 'bytes_printed', 'large_cases', 'openmp_callers', 'openmp_callers_nested', 'cpp_analyses']

@check('C18')
def c18(c):
    c.rule = ('data sets whose n*n or pair count exceeds the configured index (16 bit builds) or 32 bit arithmetic (large runs); sampled pairs, boundary pairs and core distances are compared with the coordinates. Every case is non-trivial; counted by size.')
    jobs = []
    for cfg in ('ushort', 'fushort', 'mixed2'):
        exe = program('core', 'opt', harness=('core.cpp',), config=cfg)
        jobs += c.shards('index-' + cfg, exe, c.n(24, 200), 2, extra=[80, 257, 2500], mem=10 * GB, timeout=600)
    asan = program('core', 'asan', harness=('core.cpp',), config='ushort')
    jobs += c.shards('asan-ushort', asan, c.n(4, 40), 2, extra=[80, 257, 700], timeout=600, seedoff=9)
    c.run(jobs)
    mem = 0
    try:
        mem = int([l for l in open('/proc/meminfo') if l.startswith('MemAvailable')][0].split()[1]) // 1024 // 1024
    except Exception: pass
    big = []
    if mem >= 14:   # float matrix of 65,600 points: 8.6 GB; n*n above 2^32, pairs above 2^31
        exe = program('core', 'opt', harness=('core.cpp',), config='float')
        big.append(('big-float', exe, 65600, 65700, 12))
    if c.tier == 'thorough' and mem >= 24:
        exe = program('core', 'opt', harness=('core.cpp',))
        big.append(('big-double', exe, 65600, 65650, 22))
    for name, exe, lo, hi, gb in big:
        c.run(c.shards(name, exe, 1, 1, extra=[80, lo, hi], mem=gb * GB, timeout=800), parallel=1)
        c.counters['large_runs'] = c.counters.get('large_runs', 0) + 1
    if mem >= 10: c.run(c.shards('line', program('core', 'opt', harness=('core.cpp',), config='float'), 1, 1, extra=[80, 46400, 47000, 'line'] if c.tier == 'quick' else [80, 65600, 65700, 'line'], mem=16 * GB, timeout=800), parallel=1); c.need += ['large_cases']
    if not big: c.notes.append('not enough memory for the large run (%d GB available)' % mem)

@check('C19')
def c19(c):
    c.rule = ('a case is the life of an object (run, re-run, analysis in C and C++, sorts, graph sorts, printing, destruction, lists, sets, tables and linked lists) over 3,000-14,000 points of six shapes, some with thousands of clusters or minPts, in a thread whose stack is painted before '
              'every operation; how deep each operation reached is compared with the same life over at most 140 points (6 kB more are allowed). Every case is non-trivial; counted by data.')
    a = program('stack', 'plain1', harness=('stack.cpp',), libharness=('adapter.c', 'anax.cpp', 'sx.cpp')); b = program('stack', 'opt', harness=('stack.cpp',), libharness=('adapter.c', 'anax.cpp', 'sx.cpp'))
    big = c.n(9000, 16000)
    c.run(c.shards('serial', a, c.n(24, 160), 4, extra=[big], mem=6 * GB, timeout=c.n(400, 2400)) + c.shards('openmp', b, c.n(24, 160), 4, extra=[big], env={'OMP_NUM_THREADS': '2'}, mem=8 * GB, timeout=c.n(400, 2400), seedoff=51))
    c.need += ['operations', 'observations', 'cases_with_many_clusters']
    c.assumptions = ['the stacks of OpenMP worker threads are measured in the serial build, where the calling thread does their work']

WRAP = ['-Wl,--wrap=malloc', '-Wl,--wrap=calloc', '-Wl,--wrap=realloc', '-Wl,--wrap=free', '-rdynamic', '-ldl']

@check('C13')
def c13(c):
    c.rule = ('a case is a life of one object: 0-7 operations (run, re-run, analysis and printing, clean once or twice) over 1-3 data sets, then destroy (or clean, for objects in own memory), under address and undefined behaviour sanitizers '
              'with every allocation accounted; 40% repeat one operation six times. Non-trivial: at least two operations; counted by history.')
    a = program('life', 'asan', harness=('life.cpp',), plain_c=('wrap.c',), link=WRAP); b = program('life', 'asan1', harness=('life.cpp',), plain_c=('wrap.c',), link=WRAP)
    o = program('life', 'opt', harness=('life.cpp',), plain_c=('wrap.c',), link=WRAP)
    c.run(c.shards('asan', a, c.n(1500, 16000), 3, extra=[50], timeout=c.n(300, 2400)) + c.shards('asan-serial', b, c.n(1500, 16000), 2, extra=[70], timeout=c.n(300, 2400), seedoff=31) + c.shards('opt', o, c.n(5000, 50000), 3, extra=[90], timeout=c.n(300, 2400), seedoff=62)
          + c.shards('asan-large', a, c.n(7, 80), 3, extra=[1500, 500], timeout=c.n(620, 2400), seedoff=53) + c.shards('opt-large', o, c.n(14, 160), 3, extra=[2500, 800], mem=6 * GB, timeout=c.n(620, 2400), seedoff=54))
    c.need += ['operations', 'repetitions', 'blocks_allocated', 'large_cases', 'odd_values', 'empty_runs']

@check('C20')
def c20(c):
    c.rule = ('a case is a run or re-run (of a new or used object, 5-300 points) in which one request - for a block of any size, or in 45% of the cases for one whose size depends on the data - or that one and all later ones are refused; result, later runs and re-runs, and the blocks left are judged. A second workload clusters data sets of up to 2^32-1 points whose matrix cannot exist. '
              'Non-trivial: a request was refused; counted by data, minPts and request.')
    a = program('oomrun', 'asan', harness=('oomrun.cpp',), plain_c=('wrap.c',), link=WRAP); b = program('oomrun', 'asan1', harness=('oomrun.cpp',), plain_c=('wrap.c',), link=WRAP); o = program('oomrun', 'opt', harness=('oomrun.cpp',), plain_c=('wrap.c',), link=WRAP)
    c.run(c.shards('asan', a, c.n(900, 12000), 2, extra=[300], timeout=c.n(300, 2400)) + c.shards('asan-serial', b, c.n(900, 12000), 2, extra=[300], timeout=c.n(300, 2400), seedoff=31)
          + c.shards('opt', o, c.n(4000, 60000), 3, extra=[300], timeout=c.n(300, 2400), seedoff=62) + c.shards('huge', o, c.n(72, 900), 1, extra=[0, 'huge'], timeout=c.n(300, 1200), seedoff=93)
          + [j for g in ('ushort', 'ulong') for j in c.shards('huge-' + g, program('oomrun', 'asan1', config=g, harness=('oomrun.cpp',), plain_c=('wrap.c',), link=WRAP), c.n(60, 300), 1, extra=[0, 'huge'], timeout=c.n(300, 1200), seedoff=97)])
    c.need += ['operations', 'refused_allocations', 'refused_of_any_size', 'errors_reported', 'runs_after_failure', 'impossible_sizes', 'empty_data', 'uncountable_data']
    c.assumptions = ['requests are refused in malloc, calloc and realloc of the library; the memory the runtime takes for itself is there']

@check('C14')
def c14(c):
    c.rule = ('a case is a run, the cluster analysis and a re-run. (a) four executions with heap and stack filled with different patterns must agree bit for bit; (b) single threaded under clang memory sanitizer, where every branch and every published value must be initialised. Non-trivial: more than two points; counted by data and minPts.')
    o = program('life', 'opt', harness=('life.cpp',), plain_c=('wrap.c',), link=WRAP); m = program('msan', 'msan', libharness=('adapter.c', 'msan.c'), cxx=False)
    n = c.n(1600, 20000); path = os.path.join(BUILD, 'replay', 'C14-cases-%d' % c.seed); os.makedirs(os.path.dirname(path), exist_ok=True); import subprocess
    subprocess.check_call([o, 'GEN', str(c.seed), '0', '1', str(n), '70', path], stdin=subprocess.DEVNULL)
    c.run(c.shards('patterns', o, c.n(4000, 40000), 4, extra=[70], timeout=c.n(300, 2400)) + c.shards('patterns-large', o, c.n(14, 120), 3, extra=[2500, 800], mem=6 * GB, timeout=c.n(620, 2400), seedoff=53) + c.shards('msan', m, n, 4, extra=[70, path], timeout=c.n(400, 2400)))
    c.need += ['values_checked', 'executions', 'large_cases']

COLL = {
    'L01': (12000, 200000, 'a case is a random sequence of 4-900 operations on an array list of a random element type and size, compared with an abstract sequence after every operation; counted by operations.'),
    'L02': (12000, 200000, 'a case is a random sequence of 4-700 operations on a set, compared with a sorted unique sequence after every operation; counted by operations.'),
    'L03': (12000, 200000, 'a case is a random sequence of 5-600 operations on a hash table of random key and value types and bucket count, compared with a map; counted by operations and keys.'),
    'L04': (12000, 200000, 'a case is a random sequence of 3-90 operations on a linked list, compared with an abstract sequence from both ends after every operation; counted by operations.'),
    'L05': (400, 8000, 'a case compares about 20 values per type (extremes, neighbours, random) with each other through every comparator and hash, and looks up 60 primes and powers; counted by random state.'),
}
def coll_check(pid):
    q, t, rule = COLL[pid]
    def f(c):
        c.rule = rule
        a = program('coll', 'asan1', libharness=('coll.cpp',), plain_c=('wrap.c',), link=WRAP); o = program('coll', 'opt', libharness=('coll.cpp',), plain_c=('wrap.c',), link=WRAP)
        c.run(c.shards('asan', a, c.n(q, t) // 3, 4, timeout=c.n(240, 1500)) + c.shards('opt', o, c.n(q, t), 4, timeout=c.n(240, 1500), mem=6 * GB, seedoff=11))
        if pid != 'L05': c.need += ['operations', 'observations', 'large_containers'] + (['own_keys'] if pid == 'L03' else [])
        c.assumptions = ['comparator arguments are not NaN', 'allocations succeed']
    return f
for p in COLL: CHECKS[p] = coll_check(p)

@check('L06')
def l06(c):
    c.rule = ('a case is a random sequence of up to 90 operations on a list, set, hash table or linked list, where in 5-70% of the operations the first or a later allocation (or all of them) is refused; results, content and blocks are compared with a model after every operation. Non-trivial: at least one allocation refused.')
    a = program('oom', 'asan1', libharness=('oom.cpp',), plain_c=('wrap.c',), link=WRAP); o = program('oom', 'opt', libharness=('oom.cpp',), plain_c=('wrap.c',), link=WRAP)
    c.run(c.shards('asan', a, c.n(12000, 150000), 4, timeout=c.n(240, 1500)) + c.shards('opt', o, c.n(24000, 400000), 4, timeout=c.n(240, 1500), seedoff=11))
    c.need += ['operations', 'observations', 'refused_allocations', 'failures_reported']
    c.assumptions = ['int, long, double and pointer elements']

@check('A06')
def a06(c):
    c.rule = ('a case builds a graph or a cluster tree, computes distances, or maps, measures and sorts the clusters of a run, where in 15-95% of the calls a random allocation (or that one and all later ones) is refused; results, what was handed in, and blocks are judged after every call, and the call is repeated. Non-trivial: at least one allocation refused.')
    kw = dict(libharness=('oomx.cpp',), plain_c=('wrap.c',), link=WRAP); a = program('oomx', 'asan', **kw); o = program('oomx', 'opt', **kw)
    c.run(c.shards('asan', a, c.n(6000, 80000), 4, timeout=c.n(300, 2400)) + c.shards('opt', o, c.n(24000, 400000), 3, timeout=c.n(300, 2400), seedoff=11)
          + [j for g in ('float', 'ushort', 'ulong') for j in c.shards('opt-' + g, program('oomx', 'opt', config=g, **kw), c.n(2400, 30000), 1, timeout=c.n(300, 2400), seedoff=13)])
    c.need += ['operations', 'observations', 'refused_allocations', 'failures_reported', 'graphs', 'clusters', 'propagations', 'maps', 'range_tables', 'statistics', 'sorts', 'cpp_sorts', 'distances']
    c.assumptions = ['allocations are refused in malloc, calloc and realloc; operator new succeeds']

ANA = {
    'A01': (40000, 400000, 'a case is the cluster map of a random label array and range (6 kinds of labels, 1..900 points), compared with a reference partition. Non-trivial: more than one label; counted by labels and range.'),
    'A02': (9000, 90000, DATA_RULE + 'Ranges of the clusters of a run, of random labels, and of tables listing the members in random order. Non-trivial: more than two points; counted by data and minPts.'),
    'A03': (24000, 240000, 'a case is the statistics of the ranges of a run or of given ranges (1..300 clusters, wide scales, zeros, single point clusters), repeated into cleared and uncleared structures. Non-trivial: more than one cluster; counted by ranges.'),
    'A04': (24000, 240000, 'a case is a table of 0..1500 clusters with sizes or confidences (ascending, descending, equal, random, infinite, not numbers), sorted as a whole, in part, with an empty and without a list. Non-trivial: more than one cluster; counted by values and lists.'),
    'A05': (9000, 90000, DATA_RULE + 'Map, ranges, statistics, confidences, validity and sorting in C and C++. Non-trivial: more than one label; counted by data, minPts and labels.'),
    'K01': (30000, 400000, 'a case is a tree of 1..80 clusters with random constraint counts: detachments, virtual children, propagation in a random bottom-up order; every field compared with a reference. Non-trivial: more than one cluster; counted by tree.'),
    'G01': (20000, 200000, 'a case is a random graph (multiple edges, self loops, tied and infinite weights, up to 2500 edges) and 1-14 sorts and removals. Non-trivial: more than one edge; counted by graph.'),
    'O01': (9000, 90000, DATA_RULE + 'Exports under random names (format characters, other alphabets, 230 characters, deep directories, existing longer files, unwritable paths), printing of extreme values. Non-trivial: more than two lines or printed values; counted by data.'),
}
def ana_check(pid):
    q, t, rule = ANA[pid]
    def f(c):
        c.rule = rule
        kw = dict(harness=('ana.cpp',), libharness=('adapter.c', 'anax.cpp'), plain_c=('wrap.c',), link=WRAP)
        a = program('ana', 'asan', **kw); o = program('ana', 'opt', **kw)
        n = c.n(q, t)
        jobs = c.shards('asan', a, n // 4, 4, timeout=c.n(240, 2400)) + c.shards('opt', o, n, 4, timeout=c.n(240, 2400), mem=8 * GB, seedoff=17)
        for cfg in ('float', 'ushort', 'ulong'):
            if cfg == 'float' or pid in ('A01', 'A02', 'A04', 'A05', 'K01', 'G01'):
                jobs += c.shards('opt-' + cfg, program('ana', 'opt', config=cfg, **kw), n // 8, 2, timeout=c.n(240, 2400), mem=8 * GB, seedoff=29)
        if pid in ('A02', 'A03', 'A05', 'O01'): jobs += c.shards('large', o, c.n(14, 100), 3, extra=[2500, 700] if pid != 'O01' else [9000, 3000], timeout=c.n(620, 2400), mem=8 * GB, seedoff=53)
        if pid in ('O01', 'G01', 'A03'): jobs += c.shards('debug', program('ana', 'asan', debug=True, **kw), max(60, n // 10), 2, timeout=c.n(240, 2400), seedoff=41)
        c.run(jobs)
        c.need += ['observations'] + {'A01': ['large_arrays'], 'A03': ['large_tables'], 'A04': ['large_tables'], 'A05': ['large_tables', 'large_arrays'], 'G01': ['large_graphs'], 'K01': ['large_trees', 'undying_clusters'], 'O01': ['long_hierarchies']}.get(pid, []) + (['large_cases'] if pid in ('A02', 'A03', 'A05', 'O01') else [])
        c.assumptions = ['statistics are compared where the formulas are well conditioned in the distance type', 'given lists contain clusters of the table only', 'labels and indices below 2^31 where they are printed']
    return f
for p in ANA: CHECKS[p] = ana_check(p)

@check('B01')
def b01(c):
    c.rule = ('a case is a history of 0-6 operations (run, reRun, clean once or twice) on a dynamic, automatic, placed, array or member C++ object, its steps one by one, or a distance object, mirrored by C calls; '
              'everything published is read through the C++ and the C headers after every operation and compared. Counted by history.')
    kw = dict(harness=('bcpp.cpp',), libharness=('adapter.c', 'bx.cpp'), plain_c=('wrap.c',), link=WRAP)
    a = program('bcpp', 'asan', **kw); o = program('bcpp', 'opt', **kw); n = c.n(8000, 90000)
    jobs = c.shards('asan', a, n // 5, 4, timeout=c.n(300, 2400)) + c.shards('opt', o, n, 4, mem=8 * GB, timeout=c.n(300, 2400), seedoff=17) + c.shards('large', o, c.n(14, 160), 3, extra=[2500, 700], mem=8 * GB, timeout=c.n(620, 2400), seedoff=53)
    for cfg in ('float', 'ushort', 'ulong'):
        jobs += c.shards('opt-' + cfg, program('bcpp', 'opt', config=cfg, **kw), n // 8, 2, mem=8 * GB, timeout=c.n(300, 2400), seedoff=29)
    c.run(jobs)
    c.need += ['comparisons', 'operations', 'objects_automatic', 'step_runs', 'distance_objects', 'large_cases']
    c.assumptions = ['objects are not copied or assigned (they own their memory)']

@check('O02')
def o02(c):
    c.rule = ('a case is 1-3 openings and closings of the logger with 1-8 threads, each writing up to 200 messages of all levels (empty to 12 MB, format characters, control and non-ASCII bytes, texts that look like log entries), '
              'partly from threads with small stacks and mixed with clustering runs that warn; the captured output or log file is parsed into the messages of each thread, in order, with nothing between them. Counted by messages.')
    jobs = []
    for dbg in (False, True):
        kw = dict(harness=('logw.cpp',), libharness=('adapter.c', 'lx.cpp'), plain_c=('wrap.c',), link=WRAP, debug=dbg); tag = '-debug' if dbg else ''
        a = program('logw', 'asan1', **kw); o = program('logw', 'opt', **kw); t = program('logw', 'tsan', harness=('logw.cpp',), libharness=('adapter.c', 'lx.cpp'), plain_c=('gomp_shim.c', 'wrap.c'), link=WRAP, debug=dbg)
        n = c.n(1200, 12000)
        jobs += c.shards('asan' + tag, a, n // 4, 2, timeout=c.n(300, 2400)) + c.shards('opt' + tag, o, n, 3, timeout=c.n(300, 2400), seedoff=17) + c.shards('tsan' + tag, t, n // 8, 2, timeout=c.n(300, 2400), seedoff=29, post=tsan_post)
    c.run(jobs)
    c.need += ['entries_matched', 'thread_switches', 'log_files', 'library_warnings']
    c.assumptions = ['debug builds initialise the logger before writing and can open their log file', 'time zone settings do not change while logging']

@check('B02')
def b02(c):
    c.rule = ('a case is a history of 2-12 operations on 1-3 Python objects (run on arrays of every supported type and 12 layouts, rerun, re-initialisation, cluster maps, hierarchies, attribute deletion, about 70 kinds of invalid calls, deletion of objects), '
              'compared with the C library after every step; everything handed out is compared again at the end; repeated operations must not hold more memory. Counted by history and data.')
    jobs = []
    asan = subprocess.run([build.GCC, '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    for v, n, off in (('opt', c.n(2400, 30000), 0), ('asan1', c.n(1200, 12000), 17)):
        d, so = build.python_module(v)
        env = {'PYTHONPATH': d, 'PYTHONMALLOC': 'malloc', 'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '2', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1'}
        env['LD_PRELOAD'] = asan if v == 'asan1' else build.preload('mcount.c')
        jobs += [Job('%s#%d' % (v, k), ['/usr/bin/python3', os.path.join(HARN, 'pyw.py'), 'B02', c.seed + off, k, 4, n, so, '1' if v == 'opt' else '0'], env=env, timeout=c.n(300, 2400)) for k in range(4)]
    c.run(jobs)
    c.need += ['observations', 'runs', 'reruns', 'maps', 'hierarchies', 'refusals', 'held_results', 'repetitions', 'deletions', 'large_cases', 'large_repetitions']
    c.assumptions = ['the interpreter is the system Python 3.12 with numpy 1.26', 'allocations succeed']

def java_post(c, job, rc, err):
    for m in re.finditer(r'(WARNING in native method|FATAL ERROR in native method|WARNING: JNI[^\n]*)[^\n]*', err):
        if 'capacity' in m.group(0) or 'in native method' in m.group(0): c.violation('jni-' + re.sub(r'[^a-z]+', '-', m.group(0).lower())[:60].strip('-'), 'start', m.group(0)[:300] + err[m.end():m.end() + 600], job)

@check('B03')
def b03(c):
    c.rule = ('a case is a history of 2-11 operations on 1-3 Java objects (run on data of many shapes, reRun, cleaning once or twice, cluster maps, 14-18 kinds of invalid calls, subclass objects), partly in several Java threads, compared with the C library after every step under -Xcheck:jni '
              'and a JNI function table that counts acquired arrays and references; native blocks are accounted. Counted by history.')
    jobs = []; asan = subprocess.run([build.GCC, '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    for v, n, off in (('plain1', c.n(3000, 30000), 0), ('opt', c.n(3000, 30000), 5), ('asan1', c.n(1500, 15000), 17)):
        cls, d = build.java_program(v)
        env = {'OMP_NUM_THREADS': '2'}
        if v == 'asan1': env.update({'LD_PRELOAD': asan, 'ASAN_OPTIONS': driver.SANENV['ASAN_OPTIONS'].replace('hard_rss_limit_mb=6000', 'hard_rss_limit_mb=9000') + ':handle_segv=0:detect_stack_use_after_return=0'})
        jobs += [Job('%s#%d' % (v, k), ['java', '-Xcheck:jni', '-XX:+DisplayVMOutputToStderr', '-Xmx300m', '-Xss4m', '-XX:+UseSerialGC', '-XX:-UsePerfData', '-XX:ErrorFile=/dev/null', '-cp', cls, '-Djava.library.path=' + d, 'JavaRun', 'B03', c.seed + off, k, 3, n], env=env, timeout=c.n(300, 2400), post=java_post) for k in range(3)]
    c.run(jobs)
    c.need += ['observations', 'runs', 'reruns', 'maps', 'refusals', 'held_results', 'repetitions', 'cleanings', 'threaded', 'large_cases']
    c.assumptions = ['data sets are rectangular', 'allocations succeed', 'objects are used by one thread at a time']

def prepare():
    """builds every program the checks use, without running them"""
    class Dry(driver.Check):
        def run(self, jobs, parallel=8): pass
    rc = 0
    for pid in sorted(CHECKS):
        c = Dry(pid)
        try: CHECKS[pid](c)
        except Exception as e: print('prepare', pid, str(e)[-2000:]); rc = 1
        import subprocess; subprocess.call(['rm', '-rf', c.tmp])
    return rc
