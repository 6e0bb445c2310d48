"""What every check needs: build clox from /repo, count, report, write the evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import loxrun
from loxrun import ToolError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CLOX_REPO', '/repo')
OUT = os.path.join(HERE, '_out')


def sources():
    """the sources of clox, as its Makefile lists them"""
    try:
        mk = open(os.path.join(REPO, 'Makefile')).read()
        l = re.search(r'(?m)^SRCS\s*:?=(.*)$', mk).group(1).split()
    except (OSError, AttributeError):
        l = []
    l = [f for f in l if os.path.exists(os.path.join(REPO, f))]
    if not l:
        l = [f for f in os.listdir(REPO) if f.endswith('.c')] + ['vendor/vec.c', 'vendor/linenoise.c']
    return sorted(set(l))


def build(flags=('-O2', '-g'), name='dbg', cc='gcc', link=()):
    """compile clox from the working tree of /repo; objects are reused while their sources are the same"""
    d = os.path.join(HERE, '_build')
    srcs = sources()
    h = hashlib.sha256(repr((flags, cc, link, REPO)).encode())
    for root in ('', 'vendor'):
        p = os.path.join(REPO, root)
        for f in sorted(os.listdir(p)):
            if f.endswith(('.h', '.c')):
                h.update(f.encode())
                h.update(open(os.path.join(p, f), 'rb').read())
    exe = os.path.join(d, 'clox-%s-%s' % (name, h.hexdigest()[:16]))
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        if f.startswith('clox-%s-' % name):
            os.unlink(os.path.join(d, f))
    tmp = tempfile.mkdtemp(dir=d)
    try:
        base = [cc, '-std=c99', '-w', '-I.', '-Ivendor', '-pthread', '-DNAN_TAGGING', '-DCOMPUTED_GOTO', '-DLX_BUILT_DIR=' + REPO, '-D_GNU_SOURCE', '-rdynamic'] + list(flags)

        def comp(f):
            o = os.path.join(tmp, f.replace('/', '_') + '.o')
            r = subprocess.run(base + ['-c', f, '-o', o], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise ToolError('clox does not compile: %s\n%s' % (f, r.stdout.decode('latin1')[-2000:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, srcs))
        t = os.path.join(tmp, 'clox')
        r = subprocess.run([cc, '-rdynamic', '-pthread', '-o', t] + [f for f in flags if f.startswith('-fsan')] + objs + ['-ldl'] + list(link), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ToolError('clox does not link:\n' + r.stdout.decode('latin1')[-2000:])
        os.rename(t, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.thorough = tier == 'thorough'
        self.budget = 660 if self.thorough else 45       # seconds for the open-ended part
        self.traces = 0            # behaviours of the specification compared with clox (or the reverse)
        self.samples = []
        self.cov = {}
        self.viols = []
        self.known = []
        self._exe = None
        self.assumptions = []

    @property
    def exe(self):
        if not self._exe:
            self._exe = build()
        return self._exe

    def left(self):
        return self.budget - (time.time() - self.t0)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def violation(self, what, text, ext='lox', note=''):
        """text: what to replay (a program)"""
        os.makedirs(OUT, exist_ok=True)
        h = hashlib.sha256((text + what).encode('latin1', 'replace')).hexdigest()[:10]
        p = os.path.join(OUT, '%s-%s.%s' % (self.prop, h, ext))
        with open(p, 'w', encoding='latin1', errors='replace') as f:
            f.write(text)
        with open(p + '.txt', 'w', encoding='latin1', errors='replace') as f:
            f.write(what + '\n' + note)
        self.viols.append({'what': what[:400], 'replay': p})
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('  ' + what[:600].replace('\n', '\n  '))
        sys.stdout.flush()

    def finding(self, what):
        self.known.append(what)
        print('KNOWN-FINDING: property=%s %s' % (self.prop, what))

    def finish(self, level='model_checking'):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        cov = dict(self.cov)
        st = loxrun.STATS
        cov.update(states=st['distinct'], transitions=st['states'], traces_validated_against_impl=self.traces, samples=self.samples, tlc_runs=st['runs'])
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 1), 'violations': self.viols, 'known_findings': self.known}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        p = os.path.join(HERE, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(p + '.tmp', p)
        print('%s %s: %d states, %d behaviours compared with clox, %d violations, %.0f s' %
              (self.prop, self.tier, st['distinct'], self.traces, len(self.viols), time.time() - self.t0))
        return 1 if self.viols else 0
