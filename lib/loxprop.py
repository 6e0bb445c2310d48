"""Properties decided with the executable semantics spec/Lox.tla: generated programs are run by TLC and
by clox, and have to agree."""
import time
import loxgen
from loxrun import agrees, clox, explain, outcomes, reduce, render, run_all, ToolError


def differs_with(ctx, opts, st):
    def differs(cs):
        try:
            r = outcomes(cs, cfg='LoxReduce.cfg')
        except ToolError:
            return [False] * len(cs)
        # a program that the specification doesn't finish may run forever
        rr = run_all(ctx.exe, [(c['id'], render(c)) for c in cs if r[c['id']]['st'] == st], opts, timeout=4)
        out = []
        for c in cs:
            o, x = r[c['id']], rr.get(c['id'])
            out.append(x is not None and x[0] is not None and 'Undefined global' not in o['why'] and 'Compile error' not in x[2] and 'Syntax error' not in x[2] and not agrees(o, x))
        return out
    return differs


def endless(o):
    """may run for ever, then only what was printed before counts"""
    return o['st'] == 'abort' and o['why'] in ('steps', 'depth')


def compare(ctx, L, res, optsets, timeout=15):
    """L: list of (prog, text, feats), res: outcomes; reports the differences that repeat"""
    work = [(k, i) for k in range(len(optsets)) for i in range(len(L))]
    for at in range(0, len(work), 96):
        # after a violation, only a part of the rest is run, for a limited time: runs that hang are slow
        part = [w for w in work[at:at + 96] if not ctx.viols or w[1] % 4 == 0]
        if ctx.viols and time.time() - ctx.first_viol > 100:
            return
        runs = {}
        for k, opts in enumerate(optsets):
            runs.update(((k, i), x) for i, x in run_all(ctx.exe, [(i, L[i][1], min(timeout, 4) if endless(res[L[i][0]['id']]) else timeout) for q, i in part if q == k], opts, timeout=timeout).items())
        for k, i in part:
            opts = optsets[k]
            ctx.traces += 1
            o = res[L[i][0]['id']]
            if agrees(o, runs[k, i]):
                continue
            again = list(run_all(ctx.exe, [(n, L[i][1]) for n in range(2)], opts, jobs=2, timeout=60 if runs[k, i][0] is not None else 40).values())
            if any(agrees(o, x) for x in again):
                ctx.count('not_repeated')
                continue
            if len(ctx.viols) >= 3:
                return
            text, what = L[i][1], explain(o, again[0])
            hangs = again[0][0] is None
            if not ctx.viols:
                ctx.first_viol = time.time()
                try:
                    q = reduce(L[i][0], differs_with(ctx, opts, o['st']), rounds=2 if hangs else 8, cap=32 if hangs else 100)
                    q['id'] = 0
                    o2 = outcomes([q], cfg='LoxReduce.cfg')[0]
                    t2 = render(q)
                    x2 = clox(ctx.exe, t2, opts, timeout=20)
                    if not agrees(o2, x2):
                        text, what = t2, explain(o2, x2)
                except (ToolError, RecursionError):
                    pass
            ctx.violation(' '.join(opts) + ' ' + what, text, note='options: %s\nexpected output:\n%s\n%s %s\n\nwhole program:\n%s' % (opts, '\n'.join(o['out']), o['st'], o['why'], L[i][1]))


def run_programs(ctx, L, optsets, timeout=15, batch=250):
    for k in range(0, len(L), batch):
        part = L[k:k + batch]
        res = outcomes([p for p, _, _ in part])
        for o in res.values():
            ctx.count('spec_' + o['st'])
        compare(ctx, part, res, optsets, timeout)
        if part:
            ctx.sample({'program': part[0][1][:1500], 'outcome': res[part[0][0]['id']]['st'], 'output': res[part[0][0]['id']]['out'][:20]})


def lox_property(profiles, quick=240, optsets=((),), fixed=(), timeout=15):
    """profiles: names with weights [(name, weight)]; fixed: functions ctx -> list of programs (exhaustive families)"""
    def run(ctx):
        for f in fixed:
            L = f(ctx)
            ctx.count('enumerated_programs', len(L))
            run_programs(ctx, L, optsets, timeout)
        tot = sum(w for _, w in profiles)
        rnd = 0
        while True:
            L = []
            for p, w in profiles:
                for i in range(max(1, quick * w // tot)):
                    L.append(loxgen.generate('%s-%s-%d-%d' % (ctx.seed, p, rnd, i), p, len(L)))
            ctx.count('generated_programs', len(L))
            run_programs(ctx, L, optsets, timeout)
            rnd += 1
            if not ctx.thorough or ctx.left() < 60 or ctx.viols:
                break
    return run
