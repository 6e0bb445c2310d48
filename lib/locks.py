"""Recorded runs of multi-threaded programs, validated against spec/Locks.tla."""
import json, os, random, tempfile
from loxrun import clox, run_all, tlc, ToolError

PRELUDE = '''fun spin(k) {
  var x = 0;
  for (var i = 0; i < k; i += 1) { x = x + 1; }
  return x;
}
'''


def program(r, long):
    """(ops, text): threads with ordered mutexes; `long`: busy loops that outlast the time slice of a thread"""
    nt, nm = r.randint(2, 4), r.randint(1, 3)
    ops = [[] for _ in range(nt + 2)]
    out = [PRELUDE, 'var n = [%s];' % ', '.join('0' * nm), 'var ms = [%s];' % ', '.join(['Mutex()'] * nm), 'var ts = [];']

    def pause():
        x = r.random()
        if x < 0.45 and long:
            return ['spin(%d);' % r.choice([300, 900, 1500, 2500])]
        if x < 0.7:
            return ['Thread.schedule();']
        return []

    def section(t, lo, l, dies=False):
        m = r.randint(lo, nm)
        held = [m]
        ops[t].append(['lock', m])
        l += ['ms[%d].lock();' % (m - 1), 'print "%d lock %d 0";' % (t, m)] + pause()
        for _ in range(r.randint(1, 2)):
            ops[t] += [['read', m], ['write', m]]
            l += ['v = n[%d];' % (m - 1), 'print "%d read %d ${v}";' % (t, m)] + pause() + ['n[%d] = v + 1; print "%d write %d ${v + 1}";' % (m - 1, t, m)]
        if m < nm and r.random() < 0.3:
            section(t, m + 1, l)
        l += pause()
        if dies:
            return m
        ops[t].append(['unlock', m])
        l += ['print "%d unlock %d 0";' % (t, m), 'ms[%d].unlock();' % (m - 1)]
        return 0
    for t in range(2, nt + 2):
        l = ['var v = 0;']
        died = False
        for _ in range(r.randint(1, 3)):
            section(t, 1, l)
            l += pause()
        if r.random() < 0.3:
            section(t, 1, l, dies=True)
            ops[t].append(['die', 0])
            l += ['print "%d die 0 0";' % t, r.choice(['throw Error("x");', 'exit(1);', 'return;'])]
            died = True
        if not died:
            ops[t].append(['end', 0])
            l.append('print "%d end 0 0";' % t)
        out += ['fun w%d() {' % t] + l + ['}']
    main = ['var v = 0;']
    started = []
    for t in range(2, nt + 2):
        ops[1].append(['start', t])
        main += ['print "1 start %d 0";' % t, 'ts.push(newThread(w%d));' % t]
        started.append(t)
        if r.random() < 0.3:
            main += pause()
        if r.random() < 0.25:
            section(1, 1, main)
    order = started[:]
    r.shuffle(order)
    for t in order:
        ops[1].append(['join', t])
        main += ['joinThread(ts[%d]);' % (t - 2), 'print "1 join %d 0";' % t]
    ops[1].append(['end', 0])
    main.append('print "1 end 0 0";')
    return {'ops': ops[1:], 'nm': nm, 'nc': nm, 'guarded': True}, '\n'.join(out + ['fun main() {'] + main + ['}', 'main();']) + '\n'


def parse(so):
    tr = []
    for l in so.split('\n'):
        w = l.split()
        if not w:
            continue
        try:
            tr.append([int(w[0]), w[1], int(w[2]), int(w[3])])
        except (ValueError, IndexError):
            tr.append([0, l[:40], 0, 0])
    return tr


def validate(cases):
    """ids of the cases whose trace is a behaviour of the specification"""
    fd, path = tempfile.mkstemp(suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump(cases, f)
    try:
        out = tlc('Locks', 'LocksTrace.cfg', {'LOCK_CASES': path}, timeout=400, ok=(0, 12))
    finally:
        os.unlink(path)
    return {int(l.strip().strip('"')[6:]) for l in out.split('\n') if l.strip().startswith('"LOCKS ')}


def design(ctx, cases):
    """all interleavings of small programs: exclusion, no lost updates, no deadlock"""
    small = sorted(cases, key=lambda k: sum(len(o) for o in k['ops']))[:6]
    fd, path = tempfile.mkstemp(suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump(small, f)
    try:
        tlc('Locks', 'LocksFree.cfg', {'LOCK_CASES': path}, timeout=400)
    finally:
        os.unlink(path)


def progress(ctx):
    """threads that only compute don't keep the others from running, mutexes of ended threads are free"""
    progs = [
        'var done = false; var t = newThread(fun() { done = true; });\nwhile (!done) { }\njoinThread(t); print "ok";\n',
        'var n = 0; var t = newThread(fun() { while (n < 3) { } print "seen"; });\nfor (var i = 0; i < 3; i += 1) { n = n + 1; Thread.schedule(); }\njoinThread(t); print n;\n',
        'var a = false; var b = false;\nvar t = newThread(fun() { while (!a) { } b = true; });\nvar u = newThread(fun() { while (!b) { } print "u"; });\na = true; joinThread(u); joinThread(t); print "ok";\n',
        'var m = Mutex(); var t = newThread(fun() { m.lock(); throw Error("x"); });\nvar u = newThread(fun() { m.lock(); exit(3); });\njoinThread(t); joinThread(u); m.lock(); print "ok"; m.unlock();\n',
        'var done = 0; var m = Mutex();\nfun w() { m.lock(); done = done + 1; m.unlock(); }\nvar ts = []; for (var i = 0; i < 12; i += 1) { ts.push(newThread(w)); }\nwhile (true) { m.lock(); var d = done; m.unlock(); if (d == 12) { break; } }\nfor (var i = 0; i < 12; i += 1) { joinThread(ts[i]); }\nprint done;\n',
        'var t = newThread(fun() { return 1; });\nfor (var i = 0; i < 30000; i += 1) { }\nprint joinThread(t);\n',
    ]
    want = ['ok\n', 'seen\n3\n', 'u\nok\n', 'ok\n', '12\n', 'nil\n']
    for p, w in zip(progs, want):
        ctx.traces += 1
        rs = [clox(ctx.exe, p, timeout=30)]
        if rs[0][1] != w or rs[0][0] != 0:
            rs = [clox(ctx.exe, p, timeout=60) for _ in range(2)]
            if all(x[1] != w or x[0] != 0 for x in rs):
                ctx.violation('a runnable thread does not get to run, or a mutex stays locked: expected %r, got %r exit %s %s' % (w, rs[0][1][-200:], rs[0][0], rs[0][2][:200]), p)


def check(ctx, n=40):
    rnd = 0
    while True:
        r = random.Random('%s/locks/%d' % (ctx.seed, rnd))
        L = [program(r, k % 2 == 0) for k in range(n)]
        for k, (c, t) in enumerate(L):
            c['id'] = k
            c['trace'] = []
        if rnd == 0:
            design(ctx, [c for c, _ in L])
            progress(ctx)
        for mode in ((), ('--stress-GC=young',)) if rnd % 2 == 0 else ((),):
            idx = range(n) if not mode else range(0, n, 6)
            runs = run_all(ctx.exe, [(k, L[k][1]) for k in idx], mode, timeout=40)
            bad = {k for k in idx if runs[k][0] is None or runs[k][0] != 0}
            good = [dict(L[k][0], trace=parse(runs[k][1])) for k in idx if k not in bad]
            ok = validate(good) if good else set()
            ctx.traces += len(good)
            ctx.count('recorded_traces', len(good))
            ctx.count('recorded_events', sum(len(c['trace']) for c in good))
            bad |= {c['id'] for c in good} - ok
            for k in sorted(bad)[:3]:
                # an impossible trace is a violation however rare it is; a timeout has to repeat
                if runs[k][0] is None:
                    again = [clox(ctx.exe, L[k][1], mode, timeout=90) for _ in range(2)]
                    if any(x[0] is not None for x in again):
                        ctx.count('not_repeated')
                        continue
                ctx.violation('the run is no behaviour of the specification of threads and mutexes: exit %s; %s' % (runs[k][0], runs[k][2][:300]), L[k][1],
                              note='options: %s\nrecorded:\n%s' % (mode, runs[k][1][-6000:]))
        if L:
            ctx.sample({'program': L[0][1][:1200], 'events': len(parse(runs[0][1]))})
        rnd += 1
        if not ctx.thorough or ctx.left() < 60 or ctx.viols:
            return
