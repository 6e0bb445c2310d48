"""Run programs on the specification (TLC) and on clox, compare, reduce differences."""
import copy, json, os, resource, shutil, signal, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from loxast import Ast, program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MEM = 2 << 30       # address space of one run of clox
STATS = {'states': 0, 'distinct': 0, 'runs': 0}


class ToolError(Exception):
    """the machinery itself failed (not a verdict on clox)"""


def tlc(module, cfg, env=None, workers=8, timeout=600, args=(), xmx='6g', ok=(0,)):
    """run TLC on spec/<module>.tla; returns its output"""
    meta = tempfile.mkdtemp(prefix='tlc.')
    try:
        cmd = ['java', '-Xmx' + xmx, '-Xss64m', '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-nowarning',
               '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(args) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out: ' + module)
        out = r.stdout.decode('latin1')
        if r.returncode not in ok:
            raise ToolError('TLC failed (%d) on %s/%s:\n%s' % (r.returncode, module, cfg, out[-3000:]))
        import re
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct', out)
        if m:
            STATS['states'] += int(m[-1][0])
            STATS['distinct'] += int(m[-1][1])
        STATS['runs'] += 1
        return out
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def outcomes(progs, module='Lox', cfg='Lox.cfg', workers=8, timeout=800):
    """what the specification says about each program"""
    for p in progs:
        p.setdefault('files', [])
        # the first two directories of the load path are lib and ext of clox
        p['lp'] = ['/L/lib', '/L/ext'] + p.get('dirs', [])
    fd, path = tempfile.mkstemp(suffix='.json', prefix='progs.')
    with os.fdopen(fd, 'w') as f:
        json.dump(progs, f)
    try:
        out = tlc(module, cfg, {'LOX_PROGS': path}, workers, timeout)
    finally:
        os.unlink(path)
    res = {}
    for l in out.split('\n'):
        l = l.strip()
        if l.startswith('"LOXOUT '):
            o = json.loads(json.loads(l)[7:])
            a = res.setdefault(o['id'], [])
            if (o['st'], o['out'], o['rc'], o['why']) not in [(x['st'], x['out'], x['rc'], x['why']) for x in a]:
                a.append(o)
    for i in res:          # one outcome, or several when the order of threads isn't specified
        res[i] = dict(res[i][0], alts=sorted(res[i], key=lambda o: o['st'] == 'abort'))
    missing = [p['id'] for p in progs if p['id'] not in res]
    if missing:
        raise ToolError('no outcome from the specification for %s' % missing[:5])
    return res


def split(text):
    """main program, [(path, text, is a program)], directories of the load path"""
    main, parts, dirs = [], [], []
    cur = main
    for l in text.split('\n'):
        if l.startswith('//@lp '):
            dirs = l[6:].split(':')
        elif l.startswith(('//@file ', '//@bad ')):
            cur = []
            parts.append((l.split(' ', 1)[1], cur, l.startswith('//@file ')))
        else:
            cur.append(l)
    return '\n'.join(main), [(n, '\n'.join(x), ok) for n, x, ok in parts], dirs


def clox(exe, text, opts=(), timeout=10, name='p.lox', cwd=None, env=None, files=None, stdin=b''):
    """run a program; (rc, stdout, stderr); rc None: timed out"""
    d = cwd or tempfile.mkdtemp(prefix='lox.')
    try:
        f = os.path.join(d, name)
        if isinstance(text, str) and ('\n//@' in text or text.startswith('//@')):
            # a program of several files; /D stands for its directory
            main, parts, dirs = split(text)
            text, files = main.replace('/D/', d + '/'), {n: x.replace('/D/', d + '/') for n, x, _ in parts}
            if dirs:
                opts = list(opts) + ['-L', ':'.join(dirs).replace('/D/', d + '/')]
        elif isinstance(text, str):
            text = text.replace('"/D/', '"' + d + '/')
        with open(f, 'wb') as fh:
            fh.write(text if isinstance(text, bytes) else text.encode('latin1'))
        for fn, c in (files or {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
            with open(os.path.join(d, fn), 'w') as fh:
                fh.write(c)
        q = subprocess.Popen([exe, '-f', f] + list(opts), cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=dict(os.environ, **(env or {})), start_new_session=True)
        try:
            resource.prlimit(q.pid, resource.RLIMIT_AS, (MEM, MEM))
        except (ProcessLookupError, PermissionError):
            pass
        try:
            so, se = q.communicate(stdin, timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(q.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            so, se = q.communicate()
            return (None, so.decode('latin1').replace(d, '/D'), 'timed out')
        if q.returncode == -9:       # ended from outside: no verdict
            return (None, so.decode('latin1'), 'killed')
        return (q.returncode, so.decode('latin1').replace(d, '/D'), se.decode('latin1').replace(d, '/D'))
    finally:
        if cwd is None:
            shutil.rmtree(d, ignore_errors=True)


def agrees(o, run):
    """does the run (rc, stdout, stderr) agree with the outcome of the specification?"""
    if 'alts' in o:
        return any(agrees(a, run) for a in o['alts'])
    rc, so, er = run
    exp = ''.join(x + '\n' for x in o['out'])
    if o['st'] == 'done':
        return so == exp and rc == o['rc']
    if o['st'] == 'unc':
        c, ms = o['why'].split('|', 1)
        return so == exp and rc == o['rc'] and ('Uncaught error, class: ' + c + '\n') in er and (ms == '?' or ms in er)
    # the specification doesn't decide the rest of the program: what was printed before counts;
    # a crash is never right
    if o['why'] == 'hole':       # a file with NUL bytes: strings can't have any (debug builds assert that)
        return so.startswith(exp)
    return so.startswith(exp) and (rc is None or rc >= 0 or rc == -9) and 'assertion failure' not in er and 'Got SIG' not in er


def explain(o, run):
    rc, so, er = run
    exp = ''.join(x + '\n' for x in o['out'])
    el, al = exp.split('\n'), so.split('\n')
    k = next((j for j in range(max(len(el), len(al))) if j >= len(el) or j >= len(al) or el[j] != al[j]), -1)
    s = 'specification: %s %s exit %s%s; clox: exit %s' % (o['st'], o['why'], o['rc'], ' (or one of %d other outcomes)' % (len(o['alts']) - 1) if len(o.get('alts', ())) > 1 else '', rc)
    if k >= 0 and not (o['st'] == 'abort' and so.startswith(exp)):
        s += '; output line %d: expected %r, got %r' % (k + 1, el[k] if k < len(el) else None, al[k] if k < len(al) else None)
    if er:
        s += '; stderr: ' + er.strip().replace('\n', ' / ')[:300]
    return s


def run_all(exe, items, opts=(), jobs=8, timeout=10):
    """items: list of (key, text) or (key, text, timeout); returns {key: run}"""
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(lambda it: (it[0], clox(exe, it[1], opts, it[2] if len(it) > 2 else timeout)), items))
    return dict(rs)


# ---------------------------------------------------------------- reduction

def _lists(nodes):
    for i, n in enumerate(nodes):
        if n['t'] in ('top', 'block', 'class', 'module'):
            yield i, 'l'
        elif n['t'] == 'fun':
            yield i, 'body'


def _reach(nodes, root):
    seen, todo = set(), [root]
    while todo:
        i = todo.pop()
        if not i or i in seen:
            continue
        seen.add(i)
        n = nodes[i - 1]
        for k, v in n.items():
            if k in ('p', 'q', 'sp', 's', 'n', 'op', 't', 'aop', 'gl', 'kd'):
                continue
            if isinstance(v, bool):
                continue
            if isinstance(v, int):
                todo.append(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, int):
                        todo.append(x)
                    elif isinstance(x, list):
                        todo += [y for y in x if isinstance(y, int)]
    return seen


def candidates(prog):
    nodes, root = prog['nodes'], prog['root']
    live = _reach(nodes, root)
    for n, i, x in prog.get('files', ()):
        live |= _reach(nodes, i)
    for j in range(len(prog.get('files', ()))):
        c = copy.deepcopy(prog)
        del c['files'][j]
        yield c
    for i, key in _lists(nodes):
        if i + 1 not in live:
            continue
        l = nodes[i][key]
        n = len(l)
        for size in sorted({n, n // 2, 1}, reverse=True):
            if size < 1:
                continue
            for at in range(0, n, size):
                c = copy.deepcopy(prog)
                c['nodes'][i][key] = l[:at] + l[at + size:]
                yield c
        # replace a statement by the body it contains
        for at, s in enumerate(l):
            m = nodes[s - 1]
            subs = []
            if m['t'] == 'if':
                subs = [m['a']] + ([m['b']] if m['b'] else [])
            elif m['t'] in ('while', 'for', 'foreach', 'try'):
                subs = [m['b']]
            for b in subs:
                bn = nodes[b - 1]
                if bn['t'] == 'block':
                    c = copy.deepcopy(prog)
                    c['nodes'][i][key] = l[:at] + bn['l'] + l[at + 1:]
                    yield c


def render(prog):
    a = Ast()
    a.nodes = prog['nodes']
    s = program(a, prog['root'], prog['id'])[1]
    if prog.get('dirs'):
        s = '//@lp ' + ':'.join(prog['dirs']) + '\n' + s
    for n, i, x in prog.get('files', ()):
        s += ('' if s.endswith('\n') else '\n') + ('//@file ' + n + '\n' + program(a, i, 0)[1] if i else '//@bad ' + n + '\n' + x)
    return s


def reduce(prog, differs, rounds=30, cap=240, secs=90):
    """smallest program found for which differs([progs]) -> [bool] holds"""
    cur, t0 = prog, time.time()
    for _ in range(rounds):
        if time.time() - t0 > secs:
            break
        cs = list(candidates(cur))
        cs.sort(key=lambda c: sum(len(_reach(c['nodes'], i)) for i in [c['root']] + [f[1] for f in c.get('files', ())]))
        cs = cs[:cap]
        if not cs:
            break
        for j, c in enumerate(cs):
            c['id'] = j
        ok = differs(cs)
        best = next((c for c, b in zip(cs, ok) if b), None)
        if best is None:
            break
        cur = best
    return cur
