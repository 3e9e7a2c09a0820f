"""Runs harness processes, watches their event logs, turns what they observed
into verdicts and evidence.  Outcomes: held (0), violated (1), and anything else
(no observation, harness failure) is an error of the check (2)."""
import os, sys, subprocess, time, json, re, resource, signal, hashlib, threading, glob
from concurrent.futures import ThreadPoolExecutor
import build
from build import VERIF, BUILD, BuildError

SANENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:strict_string_checks=1:malloc_context_size=12',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=86',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4',
    'MSAN_OPTIONS': 'exitcode=86:halt_on_error=1',
    'OMP_WAIT_POLICY': 'passive', 'LC_ALL': 'C.UTF-8',
}

class Inconclusive(Exception):
    pass

class Job:
    def __init__(self, name, cmd, env=None, timeout=240, mem=None, cwd=None, ev=True, post=None):
        self.name, self.cmd, self.env, self.timeout, self.mem, self.cwd = name, [str(c) for c in cmd], dict(env or {}), timeout, mem, cwd
        self.post = post

def crash_key(rc, err):
    """a stable name for an abnormal end: the kind of report and the innermost library function"""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m: kind = 'asan-' + m.group(1)
    if not kind:
        m = re.search(r'runtime error: (.*)', err)
        if m: kind = 'ubsan-' + re.sub(r'[^a-z]+', '-', re.sub(r"'.*?'|0x[0-9a-f]+|-?\d[\d.e+-]*", '', m.group(1).lower()))[:50].strip('-')
    if not kind:
        m = re.search(r'WARNING: MemorySanitizer: ([\w-]+)', err)
        if m: kind = 'msan-' + m.group(1)
    if not kind and 'hard rss limit' in err: kind = 'memory-exhausted'
    if not kind:
        if rc < 0:
            try: kind = signal.Signals(-rc).name
            except ValueError: kind = 'signal%d' % -rc
        else: kind = 'exit%d' % rc
        m = re.search(r"terminate called.*|free\(\): .*|malloc\(\): .*|double free.*|corrupted.*|munmap_chunk.*|realloc\(\): .*", err)
        if m: kind += '-' + re.sub(r'[^a-z]+', '-', m.group(0).lower())[:40].strip('-')
    fn = ''
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\w+)[^\n]*?/(src|modules|include)/([\w./]+)', err):
        fn = ':' + m.group(1); break
    return kind + fn

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.t0 = time.time()
        self.viol = {}          # key -> (case, detail, replay lines)
        self.counters, self.samples, self.nontriv, self.notes, self.errors = {}, [], set(), [], []
        self.plines = {}        # job name -> {case: (flag, hash)}
        self.assumptions = []
        self.first_viol = 0
        self.lock = threading.Lock()
        self.tmp = os.path.join(BUILD, 'tmp', '%s-%d' % (prop, os.getpid()))
        os.makedirs(self.tmp, exist_ok=True)
        self.need = ['evaluations']
        self.rule = ''

    def n(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    # -- one process, restarted after a crash so that later cases are still observed
    def _spawn(self, job, env, evp, timeout):
        e = dict(os.environ); e.update(SANENV); e.update(job.env); e.update(env); e['EV'] = evp
        errp = evp + '.err'
        def lim():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if job.mem: resource.setrlimit(resource.RLIMIT_AS, (job.mem, job.mem))
        with open(errp, 'wb') as ef:
            p = subprocess.Popen(job.cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=e, cwd=job.cwd or self.tmp, preexec_fn=lim, start_new_session=True)
            rc, hang = self._watch(p, job, evp, timeout)
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            if hang: p.wait()
        with open(errp, 'rb') as f:
            err = f.read(4000000).decode('utf8', 'replace')
        os.unlink(errp)
        return rc, hang, err

    def _watch(self, p, job, evp, timeout):
        """wait for the end, the time limit, or (quick tier) a log that stops growing"""
        quick = self.tier == 'quick'
        stall = 0 if not quick or timeout >= 600 else 80
        end = time.time() + timeout; size, grown = -1, time.time()
        while True:
            try: return p.wait(min(2, max(.05, end - time.time()))), False
            except subprocess.TimeoutExpired: pass
            now = time.time()
            try: k = os.path.getsize(evp)
            except OSError: k = 0
            if k != size: size, grown = k, now
            if now >= end or (stall and size > 0 and now - grown > stall) or now > self.limit(): return None, True

    def limit(self):
        """quick tier: no answer is worse than a shorter look; once a violation is known, finish soon"""
        if self.tier != 'quick': return float('inf')
        t = self.t0 + 780
        if self.first_viol: t = min(t, self.first_viol + 60)
        return t

    def _parse(self, job, evp):
        last, done, nv = None, False, 0
        if not os.path.exists(evp): return None, False
        for line in open(evp, errors='replace'):
            line = line.rstrip('\n'); t, _, rest = line.partition(' ')
            if t == 'B': last = rest
            elif t == 'V':
                k, _, r = rest.partition('\t'); case, _, det = r.partition('\t')
                self.violation(k, case, det, job)
            elif t == 'C':
                n, _, v = rest.rpartition(' ')
                with self.lock: self.counters[n] = self.counters.get(n, 0) + int(v)
            elif t == 'M':   # maximum
                n, _, v = rest.rpartition(' ')
                with self.lock: self.counters[n] = max(self.counters.get(n, 0), int(v))
            elif t == 'N':
                with self.lock: self.nontriv.add(rest)
            elif t == 'S':
                with self.lock:
                    if len(self.samples) < 12: self.samples.append(job.name + ': ' + rest)
            elif t == 'P':
                c, fl, h = rest.split(' ')
                with self.lock: self.plines.setdefault(job.name.split('#')[0], {})[c] = (fl, h)
            elif t == 'E': self.errors.append(job.name + ': ' + rest)
            elif t == 'D': done = True
        return last, done

    def violation(self, key, case, detail, job=None, env=None):
        with self.lock:
            if not self.first_viol: self.first_viol = time.time()
            if key in self.viol: return
            L = ['property: ' + self.prop, 'seed: %d' % self.seed, 'key: ' + key, 'case: ' + str(case), 'detail: ' + detail]
            if job:
                idx = str(case).rsplit(':', 1)[-1]
                e = dict(job.env); e.update(env or {})
                if idx.isdigit(): e['ONLY'] = idx
                L.append('rerun: env ' + ' '.join("%s='%s'" % kv for kv in sorted(e.items())) + ' ' + ' '.join("'%s'" % c for c in job.cmd))
            self.viol[key] = (case, detail, L)

    def _one(self, job):
        skip, restarts = None, 0
        while True:
            evp = os.path.join(self.tmp, 'ev-%s-%d' % (re.sub(r'\W+', '_', job.name), restarts))
            if os.path.exists(evp): os.unlink(evp)
            env = {} if skip is None else {'SKIP': str(skip)}
            rc, hang, err = self._spawn(job, env, evp, job.timeout)
            if job.post: job.post(self, job, rc, err)
            last, done = self._parse(job, evp)
            if os.path.exists(evp): os.unlink(evp)
            case = last.split(' ', 1)[0] if last else None
            if hang and time.time() > self.limit():
                self.notes.append('%s: stopped at the time limit of the quick tier, at %s' % (job.name, case)); return
            if hang:
                if case is None:
                    self.errors.append('%s: no case started within %d s' % (job.name, job.timeout)); return
                idx = case.rsplit(':', 1)[-1]
                e2 = evp + 'h'
                rc2, hang2, _ = self._spawn(job, {'ONLY': idx}, e2, min(job.timeout, 90))
                if os.path.exists(e2): os.unlink(e2)
                if hang2 and time.time() > self.limit():
                    self.notes.append('%s: %s did not finish before the time limit' % (job.name, case)); return
                if hang2: self.violation('hang', case, 'the case does not finish (tried twice): ' + last, job)
                else: self.notes.append('%s: slow at %s, finished when repeated' % (job.name, case))
            elif done and (rc == 0 or job.post):
                return
            elif rc == 3 and not done:
                self.errors.append('%s: harness failure: %s' % (job.name, err[-600:])); return
            elif case is None:
                # nothing observed: could be the library's load-time behaviour or the harness
                self.violation('crash-' + crash_key(rc, err), 'start', err[-1500:], job); return
            elif done:
                self.violation('crash-' + crash_key(rc, err), case, 'after the last case: ' + err[:1500], job); return
            else:
                self.violation('crash-' + crash_key(rc, err), case, last + ' :: ' + err[:1800], job)
            if time.time() > self.limit(): return
            restarts += 1
            with self.lock: self.counters['abnormal_ends'] = self.counters.get('abnormal_ends', 0) + 1
            idx = case.rsplit(':', 1)[-1]
            if restarts > 3 or not idx.isdigit(): return
            skip = int(idx)

    def run(self, jobs, parallel=8):
        with ThreadPoolExecutor(parallel) as ex:
            for f in [ex.submit(self._one, j) for j in jobs]: f.result()

    def shards(self, name, exe, count, nshards, extra=(), env=None, timeout=240, mem=None, prop=None, post=None, seedoff=0):
        return [Job('%s#%d' % (name, k), [exe, prop or self.prop, self.seed + seedoff, k, nshards, count] + list(extra), env=env, timeout=timeout, mem=mem, post=post) for k in range(min(nshards, count))]

    def finish(self):
        known = []
        try:
            for l in open(os.path.join(VERIF, 'known_findings.txt')):
                m = re.match(r'known: property=(\S+) key=(\S+)\s*(.*)', l)
                if m and m.group(1) == self.prop: known.append((m.group(2), m.group(3)))
        except OSError: pass
        os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
        nv = 0
        for key, (case, det, L) in sorted(self.viol.items()):
            kf = [k for k in known if k[0] == key]
            if kf:
                print('KNOWN-FINDING: property=%s %s %s' % (self.prop, key, kf[0][1])); continue
            nv += 1
            p = os.path.join(BUILD, 'replay', '%s-%s.txt' % (self.prop, re.sub(r'\W+', '_', key)[:80]))
            open(p, 'w').write('\n'.join(L) + '\n')
            if nv <= 8:
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
                print('  %s at %s: %s' % (key, case, det[:700]))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': {'evaluations': self.counters.get('evaluations', 0), 'distinct_nontrivial': len(self.nontriv),
                           'rule': self.rule, 'samples': self.samples[:12],
                           'observed': {k: v for k, v in sorted(self.counters.items()) if k != 'evaluations'}},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': nv}
        if self.notes: ev['coverage']['notes'] = self.notes[:20]
        if self.errors: ev['coverage']['errors'] = self.errors[:20]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        open(p + '.tmp', 'w').write(json.dumps(ev, indent=1) + '\n'); os.replace(p + '.tmp', p)
        subprocess.call(['rm', '-rf', self.tmp])
        build.prune()
        print('%s %s seed %d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s' % (self.prop, self.tier, self.seed, ev['coverage']['evaluations'], len(self.nontriv), nv, ev['wall_s']))
        if nv: return 1
        for e in self.errors: print('ERROR', e[:1500])
        missing = [c for c in self.need if not self.counters.get(c)]
        if missing or (not self.nontriv): print('ERROR nothing observed for:', missing or 'non-trivial cases'); return 2
        return 2 if self.errors else 0
