"""Focused program generators, one mechanism each: texts that lib/loxparse.py turns into node lists.
Every lab is a function of a random.Random that returns the text of a program."""
import itertools


def ind(l):
    return '\n'.join(l) + '\n'


# ------------------------------------------------------------------ closures (P02)

def closure(r):
    out = ['var cs = [];']
    cnt = itertools.count(1)

    def val():
        return str(r.randint(0, 9))

    def use(vis, k=3):
        vs = r.sample(vis, min(len(vis), r.randint(1, k)))
        return '[%s]' % ', '.join(vs)

    def mutate(vis):
        v = r.choice(vis)
        return '%s = (%s %s %s) %% 1000;' % (v, v, r.choice('+*+'), r.choice([val(), r.choice(vis)]))

    def fun(depth, vis, name):
        ps = ['p%d' % next(cnt) for _ in range(r.choice([0, 1, 1, 2]))]
        mine = list(ps)
        form = r.randint(0, 9) if name[0] == 'f' else 0
        l = [('fun %s(%s) {' if form < 3 else 'var %s = fun(%s) {') % (name, ', '.join(ps))]
        if form == 1:
            l.insert(0, 'var %s = nil;' % name)
        l += body(depth, vis + mine, r.choice([2, 3, 4]))
        l.append('return %s;' % use(vis + mine, 4) if vis + mine else 'return 0;')
        l.append('}' if form < 3 else '};')
        return l, len(ps)

    def body(depth, vis, n):
        l = []
        vis = list(vis)
        for _ in range(n):
            k = r.random()
            if k < 0.35 or not vis:
                v = 'v%d' % next(cnt)
                l.append('var %s = %s;' % (v, r.choice([val(), r.choice(vis)]) if vis else val()))
                vis.append(v)
            elif k < 0.55:
                l.append(mutate(vis))
            elif k < 0.65:
                l.append('if (true) {')
                l += body(depth, vis, r.randint(1, 3))
                l.append('}')
            elif k < 0.75:
                i = 'i%d' % next(cnt)
                kind = r.random()
                if kind < 0.4:
                    l.append('for (var %s = 0; %s < %d; %s += 1) {' % (i, i, r.randint(1, 3), i))
                else:
                    l.append('foreach (%s in [%s]) {' % (i, ', '.join(str(r.randint(1, 9)) for _ in range(r.randint(1, 3)))))
                l += body(depth, vis + ([i] if kind >= 0.4 else []), r.randint(1, 3))
                if r.random() < 0.3:
                    l.append('if (%s > %d) { %s; }' % (i, r.randint(0, 3), r.choice(['break', 'continue'])))
                    l += body(depth, vis, 1)
                l.append('}')
            elif depth > 0:
                f = 'f%d' % next(cnt)
                if r.random() < 0.7:
                    fl, n2 = fun(depth - 1, vis, f)
                    l += fl
                    vs = ', '.join(val() for _ in range(n2))
                    for _ in range(r.randint(0, 2)):
                        l.append('print %s(%s);' % (f, vs))
                    if n2 == 0 or r.random() < 0.5:
                        g = 'g%d' % next(cnt)
                        if n2:
                            l += ['var %s = fun() { return %s(%s); };' % (g, f, vs), 'cs.push(%s);' % g]
                        else:
                            l.append('cs.push(%s);' % f)
                else:
                    l.append('[%s].each() -> (b) {' % val())
                    l += body(depth - 1, vis + ['b'], r.randint(1, 2))
                    l += ['b;', '};']
            else:
                f = 'f%d' % next(cnt)
                l.append(r.choice(['var %s = fun() { %s return %s; };'] * 3 + ['fun %s() { %s return %s; }']) % (f, ' '.join(mutate(vis) for _ in range(r.randint(0, 2))), use(vis, 4)))
                l.append('cs.push(%s);' % f)
                if r.random() < 0.3:
                    l.append('print %s();' % f)
        if r.random() < 0.3:
            l.append('print %s;' % use(vis, 3))
        return l

    ng = r.randint(1, 2)
    for g in range(ng):
        fl, n = fun(r.choice([1, 2, 2, 3]), [], 'outer%d' % g)
        out += fl
        for _ in range(r.randint(1, 2)):
            out.append('print outer%d(%s);' % (g, ', '.join(val() for _ in range(n))))
    for _ in range(6):
        k = r.randint(0, 7)
        out.append('if (cs.size > %d) { print cs[%d](); }' % (k, k))
    out.append('for (var z = 0; z < 8; z += 1) { if (z < cs.size) { print cs[z](); } }')
    return ind(out)


# ------------------------------------------------------------------ maps (P12)

def maphist(r):
    pre = r.choice(['k', 'key', '', 'a', 'long prefix of a key '])
    n = r.choice([12, 20, 30, 40])
    base = r.randint(0, 500)
    kind = r.choice(['str', 'num', 'mixed', 'str', 'frac'])

    def key(i):
        if kind == 'str' or (kind == 'mixed' and i % 2):
            return '"%s%d"' % (pre, base + i)
        if kind == 'frac':
            return '%d.5' % (base + i)
        return str((base + i) * (1 if kind == 'num' else 3))
    keys = [key(i) for i in range(n)]
    out = ['var ks = [%s];' % ', '.join(keys), 'var m = %{};', 'var c = %{};', 'var s = "";']
    have = []

    def check(m):
        return ['s = "";', 'foreach (k in ks) { if (%s.hasKey(k)) { s.push(String(%s[k])); } else { s.push("-"); } }' % (m, m), 'print s;', 'print %s.size;' % m]
    # fill, then mix
    order = list(range(n))
    r.shuffle(order)
    for i in order[:r.randint(n // 2, n)]:
        out.append('m[%s] = %d;' % (keys[i], r.randint(0, 9)))
        have.append(i)
    out += check('m')
    for _ in range(r.randint(15, 40)):
        k = r.random()
        i = r.choice(have) if have and r.random() < 0.7 else r.randrange(n)
        if k < 0.45:
            out.append('print m.delete(%s);' % keys[i])
            if i in have:
                have.remove(i)
            if r.random() < 0.25:
                j = r.randrange(n)
                out.append('print m[%s];' % keys[j])
        elif k < 0.75:
            out.append('m[%s] = %d;' % (keys[i], r.randint(0, 9)))
            if i not in have:
                have.append(i)
        elif k < 0.85:
            out.append('print [m[%s], m.hasKey(%s), m.size];' % (keys[i], keys[r.randrange(n)]))
        elif k < 0.88:
            out.append('c = m.dup();')
        elif k < 0.91:
            out.append(r.choice(['c = m.merge(c);', 'c = c.merge(m);', 'c.mergeWith(m);', 'print m == c;', 'm.mergeWith(%%{%s: 3, %s: 4});' % (keys[i], keys[r.randrange(n)])]))
            if 'm.mergeWith' in out[-1]:
                have = list(range(n))
        elif k < 0.94:
            out.append('c[%s] = %d;' % (keys[i], r.randint(0, 9)))
        elif k < 0.96:
            out.append('print c.delete(%s);' % keys[i])
        elif k < 0.97:
            out += check('m')
        elif k < 0.985:
            out.append('c = m.slice(%s);' % ', '.join(r.sample(keys, 4)))
        elif r.random() < 0.3:
            out.append('m.clear();')
            have = []
    out += check('m') + check('c')
    if kind != 'mixed':
        out += ['print m.keys().sort();', 'print c.values().sort();']
    out += ['foreach (k in ks) { m.delete(k); }', 'print m.size;', 'print m;', 'print c == m;']
    return ind(out)


# ------------------------------------------------------------------ array literals and copies (P11, P08)

def literal(r):
    lits = ['[1, 2, 3]', '[]', '[5]', '["a", "b"]', '[1, nil, true]', '[1, [2, 3]]', '[[], []]', '[3, 1, 2, 9, 4]', '[%s]' % ', '.join(str(i) for i in range(r.randint(7, 20)))]
    out = ['var keep = [];']

    def op(v):
        return r.choice(['%s.push(%d);', '%s.pushFront(%d);', 'print %s.deleteAt(%d);', 'print %s.delete(%d);', '%s[0] = %d;', '%s[1] = %d;', '%s[2] = "s%d";'] +
                        ['print %s.pop();', 'print %s.popFront();', '%s.clear();'] * 2).replace('%d', str(r.randint(0, 4))) % v
    for f in range(r.randint(2, 3)):
        lit = r.choice(lits)
        l = ['fun f%d(n) {' % f, 'var l = %s;' % lit]
        if r.random() < 0.5:
            l.append('var c = %s;' % r.choice(['l.dup()', 'l', 'l.sort()' if 'nil' not in lit and '[1, [' not in lit and '[[' not in lit else 'l.dup()', 'l.reverse()']))
        else:
            l.append('var c = %s;' % lit)
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.3:
                l.append('if (n > %d) {' % r.randint(0, 2))
                l.append(op(r.choice('lc')))
                l.append('}')
            else:
                l.append(op(r.choice('lc')))
        l += ['print l;', 'print c;', 'keep.push(l);', 'keep.push(c);', 'return l;', '}']
        out += l
    for _ in range(r.randint(4, 8)):
        out.append('print f%d(%d);' % (r.randrange(f + 1), r.randint(0, 3)))
        if r.random() < 0.3:
            out.append(op('keep[%d]' % r.randint(0, 1)))
    out.append('for (var i = 0; i < %d; i += 1) {' % r.randint(2, 3))
    out += ['var t = %s;' % r.choice(lits), op('t'), op('t'), 'print t;', 'keep.push(t);', '}']
    if r.random() < 0.5:
        out += ['fun d(a = %s) { %s return a; }' % (r.choice(lits), op('a')), 'print d();', 'print d();', 'var e = d();', op('e'), 'print d();']
    out.append('foreach (k in keep) { print k; }')
    return ind(out)


# ------------------------------------------------------------------ long array histories (P11)

def arrhist(r):
    out = ['var a = [];', 'var b = [1, 2, 3];', 'var c = a;']
    for _ in range(r.randint(25, 60)):
        v = r.choice('aaabbc')
        w = r.choice('abc')
        out.append(r.choice([
            '%s.push(%d);' % (v, r.randint(0, 99))] * 4 + ['%s.pushFront(%d);' % (v, r.randint(0, 99))] * 3 + [
            'print %s.pop();' % v, 'print %s.popFront();' % v, 'print %s.popFront();' % v, '%s[%d] = %d;' % (v, r.randint(0, 9), r.randint(100, 200)),
            'print %s.deleteAt(%d);' % (v, r.randint(-1, 12)), 'print %s.delete(%d);' % (v, r.randint(0, 99)),
            '%s = %s.dup();' % (v, w), 'print %s.size;' % v, 'print [%s.first(), %s.last()];' % (v, w),
            'print %s == %s;' % (v, w), 'print %s[%d];' % (v, r.randint(-1, 20)), '%s = %s.reverse();' % (v, w), '%s = %s.sort();' % (v, w),
            'print %s.sum();' % v, 'print %s.join("-");' % v, 'print %s;' % v,
            'foreach (x in %s) { if (x > %d) { break; } print x; }' % (v, r.randint(5, 90)),
            'print %s.map() -> (x) { x + 1; };' % v, 'print %s.select() -> (x) { x > %d; };' % (v, r.randint(5, 90)),
            'print %s.reject() -> (x) { x %% 2 == 0; };' % v, 'print %s.find() -> (x) { x > 50; };' % v,
            'print %s.reduce(%d) -> (x, s) { s + x; };' % (v, r.randint(0, 5))]))
        if r.random() < 0.02:
            out.append('%s.clear();' % v)
    out += ['print a;', 'print b;', 'print c;', 'print c == a;', 'print a.isSame(c);']
    return ind(out)


# ------------------------------------------------------------------ strings whose hash is cached (P13, P12)

def strhist(r):
    al = ['a', 'b', 'ab', 'abc', 'abd', '', 'hello world', 'x' * r.randint(8, 40), ' pad ']
    vs = ['s%d' % i for i in range(r.randint(2, 4))]
    out = ['var m = %%{%s};' % ', '.join('"%s": %d' % (k, i) for i, k in enumerate(al))]
    for v in vs:
        out.append('var %s = %s;' % (v, r.choice(['"%s"' % r.choice(al), '"%s" + "%s"' % (r.choice(al), r.choice(al)), 'String("%s")' % r.choice(al), '"%s".dup()' % r.choice(al)])))
    for _ in range(r.randint(15, 40)):
        v, w = r.choice(vs), r.choice(vs)
        k = r.random()
        if k < 0.25:   # compute hashes
            out.append(r.choice(['print m[%s];' % v, 'print m.hasKey(%s);' % v, 'print %s == %s;' % (v, w), 'print %s == "%s";' % (v, r.choice(al)), 'print %s < %s;' % (v, w),
                                 'm[%s.dup()] = %d;' % (v, r.randint(10, 99)), 'print ["%s", 1] == [%s, 1];' % (r.choice(al), v)]))
        elif k < 0.75:
            out.append('try { %s } catch (Error e) { print e.message; }' % r.choice([
                '%s.push("%s");' % (v, r.choice(al)), '%s.push(%s);' % (v, w), '%s.insertAt("%s", %d);' % (v, r.choice(al), r.randint(0, 4)),
                '%s.insertAt(%s, %d);' % (v, w, r.randint(0, 3)), '%s[%d] = "%s";' % (v, r.randint(0, 4), r.choice('abcdx')), '%s[%d] = "%s";' % (v, r.randint(0, 2), r.choice('abcdx')),
                '%s.clear();' % v, '%s.padRight(%d, "%s");' % (v, r.randint(0, 12), r.choice('ab ')), '%s << "%s";' % (v, r.choice('abc')), '%s = %s + "%s";' % (v, w, r.choice(al)),
                '%s = %s.dup();' % (v, w), '%s = %s.substr(%d, %d);' % (v, w, r.randint(0, 3), r.randint(-2, 5)), '%s = %s.rest(%d);' % (v, w, r.randint(0, 3)), '%s = %s;' % (v, w),
                '%s = "%s";' % (v, r.choice(al)), '%s = %s * %d;' % (v, w, r.randint(1, 3)), '%s = "${%s}%s";' % (v, w, r.choice(al))]))
        else:
            out.append('print %s;' % r.choice(['%s' % v, '%s.size' % v, '%s[%d]' % (v, r.randint(0, 5)), '%s.split("%s")' % (v, r.choice(['a', 'b', ' ', 'ab'])), '%s.index("%s")' % (v, r.choice(['a', 'b', 'ab', 'd'])),
                                               '%s.endsWith("%s")' % (v, r.choice(al)), '%s.compact()' % v, '%s.compactLeft()' % v, '[%s, %s]' % (v, w), '%s == %s' % (v, w)]))
    for v in vs:
        out += ['print %s;' % v, 'print m[%s];' % v] + ['print %s == %s;' % (v, w) for w in vs]
        out += ['print %s == "%s";' % (v, k) for k in al[:5]]
    return ind(out)


# ------------------------------------------------------------------ references written into old objects (P09)

def barrier(r):
    out = ['var arr = [nil, nil, nil, nil];', 'var mp = %{};', 'class Box { init(v) { this.v = v; } get() { return this.v; } other { return this.w; } next=(x) { this.n = x; } }',
           'var bx = Box("first");', 'var top = "start";', 'fun mkc() { var cell = "cell"; fun set(x) { cell = x; } fun get() { return cell; } return [set, get]; }', 'var cl = mkc();',
           'module Mo { hi() { return "mo"; } }', 'class Holder { }', 'var grow = [];', 'var tree = [];']

    def fresh():
        n = r.randint(0, 99)
        return r.choice(['"s" + "%d"' % n, 'String(%d)' % n, '["e%d", %d]' % (n, n), '"q${%d}"' % n, '%%{"k%d": "v" + "%d"}' % (n, n), 'Box("b" + "%d")' % n, '[["n%d"]]' % n, '"abc%d".dup()' % n, '[1, 2].dup()',
                         '"a,b%d".split(",")' % n])

    def junk():
        return r.choice(['for (var i = 0; i < %d; i += 1) { var j = "junk" + String(i); }' % r.randint(2, 6), 'var j%d = [["j"], "k" + "l", %%{"m": "n" + "o"}];' % r.randint(0, 5),
                         '"a-b-c".split("-");', '[1, 2, 3].map() -> (x) { "x${x}"; };', 'Box("t" + "u");'])
    def read():
        return r.choice(['print arr;', 'print mp["a"];', 'print mp["b" + ""];', 'print classof(bx.get());', 'print String(bx.v).size;', 'print cl[1]();', 'print top;', 'print grow;', 'print tree;', 'print mp.size;',
                         'print bx.extra;', 'print Holder.cfg;', 'try { print Const; } catch (NameError e) { print "none"; }', 'print [arr[0], arr[1]];', 'print bx.n;'])
    for _ in range(r.randint(20, 45)):
        k = r.random()
        if k < 0.5:
            v = fresh()
            if 'Box' in v and r.random() < 0.8:
                v = '"z" + "%d"' % r.randint(0, 99)
            out.append(r.choice(['arr[%d] = %s;' % (r.randint(0, 3), v), 'mp["a"] = %s;' % v, 'mp["b" + ""] = %s;' % v, 'bx.v = %s;' % v, 'bx.extra = %s;' % v, 'bx.next = %s;' % v, 'cl[0](%s);' % v, 'top = %s;' % v, 'grow.push(%s);' % v,
                                 'grow.pushFront(%s);' % v, 'tree = [tree.size, %s];' % v, 'tree.push([%s]);' % v, 'Holder.cfg = %s;' % v, 'Const = %s;' % v,
                                 'mp.mergeWith(%%{"c": %s});' % v, 'bx.setProperty("extra", %s);' % v, 'arr = arr.dup();', 'mp = mp.dup();', 'bx = bx.dup();', 'mp = mp.merge(%%{"a": %s});' % v,
                                 'grow = grow.map() -> (x) { [x]; };' if r.random() < 0.2 else 'grow = grow.reverse();', 'print grow.pop();', 'print grow.popFront();', 'mp.delete("a");',
                                 'class Box { m%d() { return %s; } }' % (r.randint(0, 3), v.replace('Box', 'String')), 'fun gf%d() { return %s; }' % (r.randint(0, 2), v),
                                 'bx.extend(Mo);', 'try { throw Error(%s); } catch (Error e) { top = e.message; }' % ('"m" + "%d"' % r.randint(0, 9))]))
        elif k < 0.75:
            out.append(junk())
        else:
            out.append(read())
    out += [junk(), 'print arr;', 'print mp["a"];', 'print mp["b"];', 'print mp["c"];', 'print bx.v;', 'print bx.extra;', 'print bx.n;', 'print cl[1]();', 'print top;', 'print grow;', 'print tree;', 'print Holder.cfg;']
    return ind(out)


# ------------------------------------------------------------------ what the optimizer rewrites (P08, P03)

def optim(r):
    out = []
    cnt = itertools.count(1)
    vs = ['g0', 'g1', 'g2']
    out += ['var g0 = 1;', 'var g1 = 5;', 'var g2 = 0;']

    def const():
        return r.choice(['1', '2', '0', '3.5', '10', '7', 'true', 'false', 'nil', '"s"', '1 + 1', '2 * 3 - 1', '8 / 2', '7 % 4', '1 - 1', '-1', '!true', '!nil', '-(2)', '3 | 4', '6 & 3', '1 << 3', '10 - 2 - 3', '2 + 3 * 4', '(2 + 3) * 4'])

    def expr(d, vis):
        k = r.random()
        if d == 0 or k < 0.3:
            return const()
        if k < 0.45 and vis:
            return r.choice(vis)
        if k < 0.6:
            return '(%s and %s)' % (expr(d - 1, vis), expr(d - 1, vis))
        if k < 0.75:
            return '(%s or %s)' % (expr(d - 1, vis), expr(d - 1, vis))
        if k < 0.8:
            return '!%s' % ('(' + expr(d - 1, vis) + ')')
        if k < 0.9:
            return '(%s == %s)' % (expr(d - 1, vis), expr(d - 1, vis))
        return '%d %s %d' % (r.randint(0, 9), r.choice('+-*'), r.randint(1, 9))

    def stmts(d, vis, loop, n=None):
        l, vis = [], list(vis)
        for _ in range(n or r.randint(1, 3)):
            k = r.random()
            if k < 0.14:
                l.append('%s;' % expr(1, vis))
            elif k < 0.3:
                l.append('print %s;' % expr(2, vis))
            elif k < 0.42:
                v = 'v%d' % next(cnt)
                l.append('var %s = %s;' % (v, expr(1, vis)))
                vis.append(v)
            elif k < 0.5:
                l.append('%s = %s;' % (r.choice(vis), expr(1, vis)))
            elif k < 0.68 and d:
                l.append('if (%s) {' % expr(2, vis))
                l += stmts(d - 1, vis, loop)
                if r.random() < 0.5:
                    l.append('} else {')
                    if r.random() < 0.85:
                        l += stmts(d - 1, vis, loop)
                l.append('}')
            elif k < 0.78 and d:
                l.append('if (%s) {' % r.choice(['true', '1', '!nil', 'true and 1', 'nil or 2']))
                l += stmts(d - 1, vis, loop)
                l.append('}')
            elif k < 0.9 and d:
                i = 'i%d' % next(cnt)
                if r.random() < 0.5:
                    l.append('for (var %s = 0; %s; %s += 1) {' % (i, r.choice(['%s < %d' % (i, r.randint(0, 3)), '%s < 2 and true' % i, '%s < 2 or false' % i, 'false', 'nil']), i))
                    l += stmts(d - 1, vis, True)
                else:
                    l.append('while (%s) {' % r.choice(['true', '1', 'false', 'true and true', 'nil or true']))
                    l += stmts(d - 1, vis, True)
                    l.append('break;' if r.random() < 0.7 else 'g2 = (g2 == 0) == false; if (%s or true) { break; }' % expr(1, vis))
                l.append('}')
            elif k < 0.94 and loop:
                l.append(r.choice(['break;', 'break;', 'if (%s) { break; }' % expr(1, vis), 'if (%s) { var q = 1; break; }' % expr(1, vis)]))
                if l[-1] == 'break;':
                    break
            elif d:
                l.append('try {')
                l += stmts(d - 1, vis, False)
                if r.random() < 0.5:
                    l.append('throw Error("e");')
                l.append('} catch (Error e) {')
                l += stmts(d - 1, vis, loop)
                l.append('}')
        return l
    for f in range(r.randint(1, 3)):
        out.append('fun f%d(a, b%s) {' % (f, r.choice(['', ', c = 1 + 1', ', c = true and 5', ', c = a or 2'])))
        out += stmts(3, ['a', 'b'], False, r.randint(2, 4))
        out.append('return %s;' % expr(2, ['a', 'b']))
        out.append('}')
        for _ in range(2):
            out.append('print f%d(%s, %s);' % (f, r.choice(['true', 'false', 'nil', '1', '0']), r.choice(['true', 'false', '"x"', '2'])))
    out += stmts(2, vs, False, 3)
    out.append('print [g0, g1, g2];')
    return ind(out)


# ------------------------------------------------------------------ threads and mutexes (P16, P17)

def threads(r):
    """a few threads with shared state; the outcomes of all schedules are known to the specification"""
    style = r.choice(['det', 'det', 'det', 'free'])
    nt = r.choice([1, 2, 2, 3]) if style == 'det' else r.choice([1, 2, 2])
    out = ['var ts = [];', 'var n = 0;', 'var log = [];', 'var res = %{};']
    nm = r.choice([1, 2, 2, 3])
    for i in range(nm):
        out.append('var m%d = Mutex();' % i)
    cnt = itertools.count()
    fork = r.random() < 0.3
    left = [1000 if style == 'det' else 4]     # switch points; the number of schedules grows exponentially

    def sched(w=1):
        left[0] -= w
        return ['Thread.schedule();'] if left[0] >= 0 else []

    def forked():
        """a process forked by a thread: it has no other threads"""
        v = 'p%d' % next(cnt)
        left[0] -= 1
        body = r.choice([['n = n + k;'], ['joinThread(newThread(fun() { n = n + 5; }));'], ['m0.lock();', 'n = n + 1;'], ['try { joinThread(ts[0]); n = 50; } catch (Error e) { n = n + 7; }'],
                         ['if (Thread.current() == Thread.main()) { n = 30; }'], ['var q = Process.fork(fun() { exit(4); });', 'n = n + Process.WEXITSTATUS(Process.waitpid(q));']])
        end = r.choice(['exit(n);', 'exit(n);', 'throw Error("fe");', 'return;', 'atExit(fun() { exit(n + 1); });'])
        if r.random() < 0.6 or end.startswith('throw'):
            l = ['var %s = Process.fork(fun() {' % v] + body + [end.replace('throw Error("fe");', 'exit(9);'), '});']
        else:
            l = ['var %s = Process.fork();' % v, 'if (%s == nil) {' % v] + body + [end, '}']
        return l + ['res[k + 300] = Process.WEXITSTATUS(Process.waitpid(%s));' % v]

    def value(k):
        return r.choice(['k', 'k + 1', 'n', '[k]', '"t${k}"', '%d' % r.randint(0, 9)])

    def work(d, held, k, w=1):
        """statements of a thread; held: mutexes that it has"""
        l = []
        for _ in range(r.randint(1, 3)):
            x = r.random()
            v = 'x%d' % next(cnt)
            if x < 0.25 and (not held or max(held) < nm - 1):
                m = r.randrange(max(held) + 1 if held else 0, nm)
                l.append('m%d.lock();' % m)
                if r.random() < 0.6:
                    l += ['var %s = n;' % v] + (sched(w) if r.random() < 0.6 else []) + ['n = %s + %s;' % (v, r.choice(['1', 'k', '2']))]
                else:
                    l += work(d - 1, held + [m], k, w) if d else []
                y = r.random()
                if y < (0.75 if not held else 0.55):
                    l.append('m%d.unlock();' % m)
                elif y < 0.85 and d:
                    return l + [r.choice(['return;', 'exit(%d);' % r.randint(0, 300), 'throw Error("in ${k}");'])]
                else:
                    l += ['try { throw TypeError("z"); } catch (Error e) { m%d.unlock(); }' % m]
            elif x < 0.35 and not held and style == 'det':
                m = r.randrange(nm)
                l += ['m%d.lock();' % m, 'try {', 'n = n + 1;'] + (['throw Error("q");'] if r.random() < 0.5 else []) + ['} catch (Error e) {', 'n = n + 10;', '} ensure {', 'm%d.unlock();' % m, '}']
            elif x < 0.38 and not held and w == 1 and left[0] > 0 and fork:
                l += forked()
            elif x < 0.45:
                l += sched(w) if r.random() < 0.7 else ['sleep(0);']
            elif x < 0.6 and style == 'free':
                l.append('log.push(%s);' % value(k))
            elif x < 0.7:
                l.append('Thread.current()["v"] = %s;' % value(k))
            elif x < 0.8:
                l.append('res[k] = %s;' % (r.choice(['k * 2', 'Thread.current()["v"] == nil', 'Thread.current() == Thread.main()', '"r"'])))
            elif x < 0.88 and d:
                l += ['for (var i = 0; i < %d; i += 1) {' % r.randint(1, 2)] + work(0, held, k, 2 * w) + ['}']
            elif x < 0.94 and d:
                l += ['try {'] + work(0, held, k, w) + ['throw Error("c");', '} catch (Error e) {', 'res[k + 100] = e.message;', '}']
            else:
                l.append('try { m%d.unlock(); } catch (Error e) { res[k + 200] = e.message; }' % r.randrange(nm) if not held else 'n = n + 3;')
        return l
    for t in range(nt):
        out.append('fun w%d(k) {' % t)
        out.append('return fun() {')
        out += work(1, [], t)
        if r.random() < 0.2:
            out.append(r.choice(['throw Error("end");', 'exit(%d);' % r.randint(0, 9), 'nofunc();', 'return 5;']))
        out += ['};', '}']
    if style == 'free':
        for t in range(nt):
            out.append('ts.push(newThread(w%d(%d)));' % (t, t + 1))
        if r.random() < 0.5:
            out.append(r.choice(['log.push("m");', 'Thread.schedule();', 'm0.lock(); log.push("M"); m0.unlock();']))
    else:
        for t in range(nt):
            out.append('ts.push(newThread(w%d(%d)));' % (t, t + 1))
            if r.random() < 0.2:
                out.append('m0.lock(); n = n + 100; m0.unlock();')
            if r.random() < 0.15:
                out.append('Thread.schedule();')
    order = list(range(nt))
    r.shuffle(order)
    for t in order:
        out.append('print joinThread(ts[%d]);' % t)
    if r.random() < 0.3:
        if r.random() < 0.5:
            out.append('var nt = newThread(fun() { n = n + 1000; Thread.schedule(); log.push("nt"); });')
        out.append('try { joinThread(ts[%d]); } catch (Error e) { print e.message; }' % r.randrange(nt))
        if out[-2].startswith('var nt'):
            out.append('joinThread(nt);')
    out += ['print n;', 'print log;'] if style == 'free' or r.random() < 0.5 else ['print n;']
    out += ['foreach (i in [1, 2, 3, 101, 102, 201, 202, 301, 302]) { print res[i]; }']
    out += ['m%d.lock(); print "free"; m%d.unlock();' % (i, i) for i in range(nm)]
    if r.random() < 0.4:
        out.append('print ts[0]["v"];')
    if r.random() < 0.2:
        out.append('print Thread.current() == ts[0];')
    return ind(out)


# ------------------------------------------------------------------ processes, exit and atExit (P18, P25)

def procs(r):
    out = ['var log = [];', 'var g = 0;']
    cnt = itertools.count(1)
    mu = r.random() < 0.25

    def leave():
        return r.choice(['exit(%d);' % r.choice([0, 1, 2, 3, 77, 255, 256, 300, -1]), 'exit();', '_exit(%d);' % r.randint(0, 300), 'throw Error("bye");', 'nofn();'])

    def hook(d):
        l = ['atExit(fun() {', 'print "hook %d ${g}";' % next(cnt), 'g = g + 1;']
        x = r.random()
        if x < 0.1:
            l.append('throw Error("in hook");')
        elif x < 0.2:
            l.append('exit(%d);' % r.randint(0, 300))
        elif x < 0.3 and d:
            l += hook(0)
        elif x < 0.4:
            l.append('try { throw Error("h"); } catch (Error e) { print e.message; } ensure { print "he"; }')
        elif x < 0.5:
            l.append('return;')
        return l + ['});']

    def wait(v):
        x = r.random()
        if x < 0.5:
            return ['var s%s = Process.waitpid(%s);' % (v, v), 'print s%s;' % v, 'print Process.WIFEXITED(s%s);' % v, 'print Process.WEXITSTATUS(s%s);' % v]
        if x < 0.7:
            return ['print Process.waitpid(%s);' % v, 'print Process.waitpid(%s);' % v]
        return ['var a%s = Process.waitall();' % v, 'print a%s.size;' % v, 'if (a%s.size == 1) { print a%s[0][0] == %s; print a%s[0][1]; }' % (v, v, v, v)]

    def child(d):
        l = []
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < 0.4:
                l.append('print "child ${g}";')
            elif x < 0.55:
                l.append('g = g + %d;' % r.randint(1, 9))
            elif x < 0.7:
                l += hook(1)
            elif x < 0.85 and d:
                l += fork(d - 1)
            elif x < 0.9 and not mu:     # not while mu is locked: the thread would never run
                l += ['joinThread(newThread(fun() {', 'print "ct ${g}";', 'g = g + 1;', r.choice(['', '', 'exit(3);', 'throw Error("ct");']), '}));']
            else:
                l += ['try {', 'print "t";'] + (['throw Error("ce");'] if r.random() < 0.6 else []) + ['} catch (Error e) {', 'print e.message;'] + ([leave()] if r.random() < 0.3 else []) + ['} ensure {', 'print "ens";', '}']
        if r.random() < 0.6:
            l.append(leave())
        return l

    def fork(d):
        v = 'p%d' % next(cnt)
        if r.random() < 0.65:
            l = ['var %s = Process.fork(fun() {' % v] + child(d) + ['});']
        else:
            l = ['var %s = Process.fork();' % v, 'if (%s == nil) {' % v] + child(d) + [r.choice(['exit(%d);' % r.randint(0, 9), 'exit(%d);' % r.randint(0, 9), 'print "goes on";', '_exit(%d);' % r.randint(0, 9)]), '}']
        l += ['g = g + 1;'] if r.random() < 0.4 else []
        return l + ['if (%s != nil) {' % v] + wait(v) + ['}']
    if mu:
        out += ['var mu = Mutex();', 'mu.lock();', 'var th = newThread(fun() {', 'mu.lock();', 'g = g + 50;', 'mu.unlock();', '});']
        if r.random() < 0.5:
            out += ['var th2 = newThread(fun() {', 'mu.lock();'] + fork(0) + ['});']
    for _ in range(r.randint(1, 5)):
        x = r.random()
        if x < 0.35:
            out += hook(1)
        elif x < 0.75:
            out += fork(r.choice([0, 0, 1]))
        elif x < 0.85:
            out.append('print "main ${g}";')
        elif x < 0.9:
            out += ['fun f%d() {' % next(cnt), 'try {', leave(), '} catch (Error e) {', 'print "caught";', '} ensure {', 'print "ensured";', '}', '}']
            out.append('f%d();' % (next(cnt) - 1))
        else:
            out += ['for (var i = 0; i < %d; i += 1) {' % r.randint(2, 3), 'var p = Process.fork(fun() { exit(i + 1); });', 'g = g + Process.WEXITSTATUS(Process.waitpid(p));', '}', 'print g;']
    if r.random() < 0.25:
        k = r.randint(2, 3)
        out += ['for (var i = 0; i < %d; i += 1) {' % k, 'Process.fork(fun() { exit(i); });', '}', 'print Process.waitall().size;']
    if any(l.startswith('var th = ') for l in out) and r.random() < 0.8:
        out += ['mu.unlock();', 'joinThread(th);', 'print g;']
        if any(l.startswith('var th2 = ') for l in out):
            out += ['joinThread(th2);', 'print g;']
    if r.random() < 0.5:
        out.append(leave())
    else:
        out.append('print "end";')
    return ind(out)


LABS = {'closure': closure, 'maphist': maphist, 'literal': literal, 'arrhist': arrhist, 'strhist': strhist, 'barrier': barrier, 'optim': optim, 'threads': threads, 'procs': procs}


# ------------------------------------------------------------------ operators and operands (P01)

VALUES = ['0', '1', '2', '3', '7', '5', '8', '-1', '-2', '2.5', '0.5', '100', 'true', 'false', 'nil', '"a"', '"b"', '"ab"', '""', '"1"', '[]', '[1]', '[1, 2]', '["a"]', '%{}', '%{"a": 1}', 'Object', 'o', 'f', 'nums', 'x', 'y', 's', 't']
BINOPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', 'and', 'or']
PRE = ['class A { }', 'var o = A();', 'fun f() { return 4; }', 'var nums = [3, 1, 2];', 'var x = 6;', 'var y = 3;', 'var s = "abc";', 'var t = true;', 'fun id(v) { print v; return v; }']


def show(e):
    return 'try { print %s; } catch (Error e) { print classof(e); print e.message; }' % e


def optable(r):
    out = list(PRE)
    for _ in range(12):
        k = r.random()
        if k < 0.45:
            e = '%s %s %s' % (r.choice(VALUES), r.choice(BINOPS), r.choice(VALUES))
        elif k < 0.55:
            e = '%s%s' % (r.choice(['-', '!', '!!', '-(', '!(']), r.choice(VALUES))
            e += ')' * e.count('(')
            if e.startswith('--'):
                e = '-(' + e[1:] + ')'
        elif k < 0.65:
            e = '%s[%s]' % (r.choice(['nums', 's', 'o', 'f', 'x', '%{"a": 1}', '[1, 2]', '"xyz"', 'nil']), r.choice(VALUES))
        elif k < 0.72:
            e = '"${%s}-${%s}"' % tuple(v if '"' not in v and '{' not in v else 's' for v in (r.choice(VALUES), r.choice(VALUES)))
        elif k < 0.8:
            e = '[%s, %s, String(%s)]' % (r.choice(VALUES), r.choice(VALUES), r.choice(VALUES))
        elif k < 0.9:
            e = 'id(%s) %s id(%s) %s id(%s)' % (r.choice(VALUES), r.choice(BINOPS), r.choice(VALUES), r.choice(BINOPS), r.choice(VALUES))
        else:
            e = '%s %s (%s)' % (r.choice(VALUES), r.choice(BINOPS), '%s %s %s' % (r.choice(VALUES), r.choice(BINOPS), r.choice(VALUES)))
        if r.random() < 0.1:
            out.append('if (%s) { print "yes"; } else { print "no"; }' % r.choice(VALUES))
        out.append(show(e))
    return ind(out)


def prec(r):
    """chains of operators on numbers and truth values: precedence and associativity decide the value"""
    out = list(PRE)
    num = ['1', '2', '3', '4', '5', '6', '7', '9', '12', '20', 'x', 'y', '0.5', '1.5', 'nums[0]', 'nums[1]', 'f()', '-3', '(-2)', '(1 + 2)', '(x - y)']
    for _ in range(8):
        n = r.randint(2, 5)
        ops = r.choice([['+', '-', '*', '/', '%'], ['&', '|', '^', '<<', '>>', '+'], ['+', '-', '*', '<', '==', 'and', 'or'], BINOPS, ['-', '-', '+', '/'], ['and', 'or', '==', '!=', '<']])
        bang = r.random() < 0.1
        e = r.choice(num)
        for _ in range(n):
            op = r.choice(ops)
            e += ' %s %s' % (op, r.choice(['2', '4', '0.5', '-2', '8']) if op == '/' else r.choice(['0', '1', '2', '3']) if op in ('<<', '>>') else r.choice(['', '', '', '', '!' if bang else '-']) + r.choice(num))
        e = e.replace('--', '-')
        out.append(show(e))
    return ind(out)


LABS.update(optable=optable, prec=prec)


# ------------------------------------------------------------------ every array operation, with errors (P11)

def guard(st):
    return 'try { %s } catch (Error e) { print classof(e); print e.message; }' % st


def arrops(r):
    els = ['1', '2', '3', '5', '9', '-1', '0', '1.5', '"a"', '"b"', '"zz"', 'nil', 'true', '[1]', '[]', '[2, "x"]']
    num = els[:8]
    strs = els[8:11]

    def lit(kind=None):
        k = kind or r.choice(['num', 'num', 'str', 'any', 'nest'])
        n = r.choice([0, 1, 2, 3, 4, 6])
        if k == 'nest':
            return '[%s]' % ', '.join('[%s]' % ', '.join(r.choice(num) for _ in range(2)) for _ in range(n))
        return '[%s]' % ', '.join(r.choice({'num': num, 'str': strs, 'any': els}[k]) for _ in range(n))
    out = ['var a = %s;' % lit(), 'var b = %s;' % lit(), 'var c = a;', 'var it = a.iter();', 'class P { init(v) { this.v = v; } opEquals(o) { return this.v == o.v; } toString() { return "P${this.v}"; } }', 'var p = P(1);']
    for _ in range(r.randint(14, 28)):
        v, w = r.choice('aabbc'), r.choice('abc')
        e = r.choice(els)
        i = r.choice(['0', '1', '2', '-1', '3', '1.5', '7', '100', '"x"', 'nil', '%s.size' % v, '%s.size - 1' % v])
        st = r.choice([
            'print %s.push(%s);' % (v, e), 'print %s.pushFront(%s);' % (v, e), '%s.push(%s);' % (v, e), 'print %s.pop();' % v, 'print %s.popFront();' % v,
            'print %s[%s];' % (v, i), '%s[%s] = %s;' % (v, i, e), 'print %s.delete(%s);' % (v, e), 'print %s.deleteAt(%s);' % (v, i), 'print %s << %s;' % (v, e),
            'print %s.join("%s");' % (v, r.choice(['', ',', '--'])), 'print %s.join(%s);' % (v, r.choice(['1', 'nil', '[]'])),
            'print %s.sum();' % v, 'print %s.sort();' % v, 'print %s.reverse();' % v, 'print %s.first();' % v, 'print %s.last();' % v, 'print %s.inspect();' % v, 'print %s.toString();' % v,
            'print %s.sortBy() -> (x, y) { x - y; };' % lit('num'), 'print %s.sortBy() -> (x, y) { y - x; };' % lit('num'), 'if (%s.size < 2) { print %s.sortBy() -> (x, y) { 1; }; }' % (v, v),
            'print [[3, 1], [1, 2], [2, 3]].sortBy() -> (x, y) { x[%d] - y[%d]; };' % ((r.randint(0, 1),) * 2), 'print [1, 2, 3].sortBy() -> (x, y) { "s"; };', 'print [1, 2, 3].sortBy() -> (x, y) { if (x == 2) { break; } 1; };', 'print [1, 2].sortBy();',
            'print ["ccc", "a", "bb"].sortBy() -> (x, y) { x.size - y.size; };',
            'print Array.fill(%s, %s);' % (r.choice(['0', '1', '3', '-2', '2.5', '"x"']), e), '%s = Array.fill(%d, %s);' % (v, r.randint(0, 4), e), 'print Array.wrap(%s);' % r.choice([e, v]),
            '%s = Array.wrap(%s);' % (v, w), '%s = Array(%s);' % (v, ', '.join(r.choice(els) for _ in range(r.randint(0, 4)))), 'print it.next();', 'it = %s.iter();' % v, 'print [it.next(), it.next()];',
            'print %s == %s;' % (v, w), 'print %s.isSame(%s);' % (v, w), 'print %s == %s.dup();' % (v, v), '%s = %s.dup();' % (v, w), '%s = %s;' % (v, w), 'print %s.size;' % v, '%s.clear();' % v if r.random() < 0.3 else 'print %s.clear().size;' % 'b',
            '%s.push(%s, %s);' % (v, e, e), '%s.pop(1);' % v, '%s.deleteAt();' % v, '%s.first(1);' % v, 'print %s.delete();' % v,
            'print %s.map() -> (x) { [x]; };' % v, 'print %s.select() -> (x) { x == %s; };' % (v, e), 'print %s.reject() -> (x) { x == %s; };' % (v, e), 'print %s.find() -> (x) { x == %s; };' % (v, e),
            'print %s.reduce(%s) -> (x, m) { m + x; };' % (v, r.choice(['0', '10', '"s"'])), '%s.each() -> (x) { print x; };' % v, 'print %s.each() -> (x) { if (x == %s) { break; } x; };' % (v, e),
            '%s = %s.map() -> (x) { x; };' % (v, w), 'foreach (x in %s.dup()) { %s.push(x); if (%s.size > 9) { break; } }' % (v, v, v) if r.random() < 0.5 else 'print %s.size;' % v,
            '%s = [p, P(2), P(1)]; print %s.size;' % (v, v), 'print [P(1), P(2)];', 'print [P(1), 3][0] == p;',
            '%s = [%s, %s];' % (v, w, e) if r.random() < 0.2 else 'print [%s, %s];' % (v, e)])
        out.append(guard(st))
    out += [guard('print a;'), guard('print b;'), guard('print c;'), 'print a.size + b.size + c.size;']
    return ind(out)


# ------------------------------------------------------------------ maps: kinds of keys, small maps in order (P12)

def mapkeys(r):
    out = ['class K { init(v) { this.v = v; } }', 'class L < K { }', 'fun f() { }', 'var k1 = K(1);', 'var k2 = K(1);', 'var ar = [1, "x"];', 'var st = "str";', 'var m = %{};', 'var n = %{};', 'var big = %{};', 'var it = nil;']
    keys = ['1', '2', '1.5', '0', '-1', '100', '"1"', '"a"', '"b"', '"str"', 'st', '""', 'true', 'false', 'nil', '[1, "x"]', 'ar', '[]', '[[1], 2]', '[1]', 'k1', 'k2', 'K', 'L', 'Object', 'f', '"a" + "b"', '"ab"', '1 + 1', '[1, "x"].dup()', 'k1.dup()', '4 / 2']
    vals = ['1', '2', '"v"', 'nil', '[1]', 'false', 'k1', '"w"', '7']
    for _ in range(r.randint(14, 30)):
        v, w = r.choice(['m', 'm', 'n', 'big']), r.choice(['m', 'n', 'big'])
        k, k2, x = r.choice(keys), r.choice(keys), r.choice(vals)
        small = v != 'big'
        st = r.choice(
            ['%s[%s] = %s;' % (v, k, x)] * 5 + ['print %s[%s];' % (v, k)] * 3 + ['print %s.hasKey(%s);' % (v, k)] * 2 + ['print %s.delete(%s);' % (v, k)] * 3 +
            ['print %s.delete(%s, %s);' % (v, k, k2), 'print %s.size;' % v, '%s = %s.dup();' % (v, w) if v != w else 'print %s == %s.dup();' % (v, v), 'print %s == %s;' % (v, w), 'print %s.merge(%s).size;' % (v, w),
             '%s.mergeWith(%s);' % ('big', w), '%s = %s.slice(%s, %s);' % (v, w, k, k2), 'print %s.keys().size;' % v, '%s.clear();' % v, 'print %s.rehash().size;' % v,
             '%s = Map([[%s, %s], [%s, %s]]);' % (v, k, x, k2, r.choice(vals)), 'print Map(%s);' % r.choice(['1', '[1]', '[[1]]', '[[1, 2, 3]]', '[]', '"s"', '[[1, 2], nil]']), 'print Map([], 1);' if r.random() < 0.3 else 'print Map();',
             'print %%{%s: %s, %s: %s}.size;' % (k if k[0] != '[' else '1', x, k2 if k2[0] != '[' else '2', r.choice(vals)),
             'ar.push(3); print ar.size;' if r.random() < 0.3 else 'print ar;', 'st.push("x");' if r.random() < 0.3 else 'print st;', 'm.rehash(); n.rehash(); big.rehash();',
             'print %s.keys().sort();' % v if r.random() < 0.2 else 'print %s.values().size;' % v])
        out.append(guard(st))
        if small and r.random() < 0.12:
            out.append(guard(r.choice(['if (%s.size < 3) { print %s; }', 'if (%s.size < 3) { %s.each() -> (k, v) { print k; print v; }; }', 'if (%s.size < 3) { print %s.map() -> (k, v) { [k, v]; }; }', 'if (%s.size < 3) { foreach (k, v in %s) { print [k, v]; } }',
                                             'if (%s.size < 3) { foreach (p in %s) { print p[1]; } }', 'if (%s.size < 3) { it = %s.iter(); print [it.next(), it.next(), it.next()]; }', 'if (%s.size < 2) { print %s.inspect(); }', 'if (%s.size < 3) { print [%s.keys(), 1]; }']).replace('%s', v)))
        if small and r.random() < 0.15:
            out.append('if (%s.size > 2) { %s.clear(); }' % (v, v))
    out += ['print [m.size, n.size, big.size];'] + ['print %s[%s];' % (v, k) for v in ('m', 'big') for k in r.sample(keys, 5)]
    return ind(out)


LABS.update(arrops=arrops, mapkeys=mapkeys)


# ------------------------------------------------------------------ class graphs and their histories (P07)

def classes(r):
    out, cls, mods, objs = [], [], [], []
    names = ['a', 'b', 'c']
    cnt = itertools.count(1)

    def meth(who, nm, sup):
        k = r.random()
        tag = '%s.%s%d' % (who, nm, next(cnt))
        if k < 0.35 and sup:
            return '%s() { print "%s"; return super.%s(); }' % (nm, tag, r.choice([nm, nm, nm, r.choice(names)]))
        if k < 0.5:
            return '%s() { print "%s"; try { return this.%s(); } catch (Error e) { return e.message; } }' % (nm, tag, r.choice([n for n in names if n > nm] or ['zz']))
        return '%s() { return "%s"; }' % (nm, tag)

    def member(who, mod):
        k = r.random()
        nm = r.choice(names)
        t = '%s%d' % (who, next(cnt))
        if k < 0.6:
            return meth(who, nm, True)
        if k < 0.68:
            return '%s { return "get %s"; }' % (r.choice(['g', 'h']), t)
        if k < 0.75:
            return '%s=(x) { this.%s = "%s" + String(x); }' % (r.choice(['s', 'g']), r.choice(['p', 'q']), t)
        if k < 0.82 and not mod:
            return 'class %s() { return "static %s"; }' % (r.choice(['st', 'su']), t)
        if k < 0.86:
            return 'toString() { return "str %s"; }' % t
        if k < 0.9:
            return 'methodMissing(n, *as) { return ["%s", n, as]; }' % t
        if k < 0.93:
            return 'opAdd(o) { return "%s"; }' % t
        if k < 0.96:
            return 'opEquals(o) { return "%s".size > 3; }' % t
        return 'opIndexGet(i) { return [i, "%s"]; }' % t
    for i in range(r.randint(1, 3)):
        n = 'M%d' % i
        mods.append(n)
        out += ['module %s {' % n] + [member(n, True) for _ in range(r.randint(1, 3))] + ['}']
    hook = r.random() < 0.1
    for i in range(r.randint(2, 5)):
        n = 'C%d' % i
        sup = ' < %s' % r.choice(cls) if cls and r.random() < 0.75 else ''
        l = ['class %s%s {' % (n, sup)]
        if hook and not sup:
            l.append('class methodAdded(n) { print "added ${n} ${this}"; }')
        if r.random() < 0.25:
            l.append('init(v = 1) { this.v = v; %s}' % ('super.init(v); ' if sup and r.random() < 0.5 else ''))
        l += [member(n, False) for _ in range(r.randint(0, 4))] + ['}']
        cls.append(n)
        out += l
    def new():
        o = 'o%d' % len(objs)
        objs.append(r.choice(cls))
        out.append('var %s = nil;' % o)
        out.append(guard('%s = %s();' % (o, objs[-1])))
    new()
    new()

    def probe():
        k = r.random()
        o = 'o%d' % r.randrange(len(objs))
        c = r.choice(cls)
        return r.choice(['print %s.%s();' % (o, r.choice(names + ['zz']))] * 8 + ['print %s.%s;' % (o, r.choice(['g', 'h', 'p', 'q', 'v']))] * 3 + ['%s.%s = %d; print [%s.p, %s.q];' % (o, r.choice(['s', 'g', 'p']), r.randint(1, 9), o, o)] * 2 +
                        ['print %s.ancestors();' % c, 'print %s.%s();' % (c, r.choice(['st', 'su'])), 'print %s.superClass;' % c, 'print classof(%s);' % o, 'print %s.class;' % o, 'print %s;' % o,
                         'print %s.respondsTo("%s");' % (o, r.choice(names + ['zz', 'toString', 'dup'])), 'print %s.isA(%s);' % (c, r.choice(cls + ['Object'])), 'print %s + 1;' % o, 'print %s == %s;' % (o, 'o0'), 'print %s[3];' % o,
                         'print %s.hasGetter("%s");' % (o, r.choice('ghp')), 'print %s.hasSetter("%s");' % (o, r.choice('sgp')), 'print %s.hasProperty("%s");' % (o, r.choice('ghpqv')), 'print %s.send("%s");' % (o, r.choice(names + ['zz'])),
                         'print %s.getProperty("%s");' % (o, r.choice('ghpq')), '%s.setProperty("%s", 4); print %s.p;' % (o, r.choice('sgp'), o), 'var bm = %s.%s; print bm;' % (o, r.choice(names)), 'var bm = %s.%s; print bm();' % (o, r.choice(names)),
                         'print %s.dup().%s();' % (o, r.choice(names)), 'print %s.name;' % c, 'print %s.inspect();' % c, 'print %s;' % c, 'print %s.%s;' % (c, 'su'), 'print [%s.isSame(%s), %s == %s];' % (o, 'o1', o, 'o1')])
    for _ in range(r.randint(10, 24)):
        k = r.random()
        c = r.choice(cls)
        o = 'o%d' % r.randrange(len(objs))
        if k < 0.6:
            out.append(guard(probe()))
        elif k < 0.68:
            out += ['class %s {' % c] + [member(c, False) for _ in range(r.randint(1, 2))] + ['}']
        elif k < 0.73:
            n = r.choice(mods)
            out += ['module %s {' % n, member(n, True), '}']
        elif k < 0.81:
            out.append(guard('%s.include(%s);' % (c, r.choice(mods + mods + [c, '1']))))
        elif k < 0.87:
            out.append(guard('%s.extend(%s);' % (o, r.choice(mods + mods + [c]))))
        elif k < 0.91:
            out.append(guard('%s.aliasMethod("%s", "%s");' % (c, r.choice(names), r.choice(names + ['zz']))))
        elif k < 0.95:
            out.append(guard('%s.defineMethod("%s", fun() { return "d%d"; });' % (c, r.choice(names + ['zz']), next(cnt))))
        else:
            new()
    for i in range(len(objs)):
        for n in names:
            out.append(guard('print o%d.%s();' % (i, n)))
    return ind(out)


# ------------------------------------------------------------------ constants (P29)

def consts(r):
    out = []
    cn = ['X', 'Y', 'Z']
    cnt = itertools.count(1)
    for n in r.sample(cn, r.randint(0, 2)):
        out.append('%s = "g%s";' % (n, n))
    tops = []

    def use():
        return '[%s]' % ', '.join('this.try%d()' % 0 for _ in range(1))
    PROBES = ['c%s() { try { return %s; } catch (NameError e) { return e.message; } }' % (n, n) for n in cn]

    def scope(path, d, allc):
        l = []
        for n in r.sample(cn, r.randint(0, 2)):
            l.append('%s = "%s.%s%d";' % (n, path, n, next(cnt)))
        if r.random() < 0.3:
            l.append('try { print %s; } catch (NameError e) { print e.message; }' % r.choice(cn))
        if r.random() < 0.7:
            l += PROBES
        if r.random() < 0.3:
            l.append('class s() { return %s; }' % r.choice(cn))
        if r.random() < 0.2:
            l.append('set() { Y = "set%d"; return Y; }' % next(cnt))
        if d and r.random() < 0.7:
            for i in range(r.randint(1, 2)):
                n = r.choice('IJK')
                kind = r.choice(['class', 'class', 'module'])
                key = path + '::' + n
                old = allc.get(key)
                if old and old[0] != kind:
                    continue
                sup = r.choice([k for k, v in allc.items() if v[0] == 'class' and '::' not in k] + ['']) if kind == 'class' and not old else ''
                allc[key] = (kind,)
                l += ['%s %s%s {' % (kind, n, ' < ' + sup if sup and r.random() < 0.5 else '')] + scope(key, d - 1, allc) + ['}']
        return l
    allc = {}
    for i in range(r.randint(2, 4)):
        kind = r.choice(['class', 'class', 'module'])
        n = 'ABCDE'[i]
        sup = [k for k, v in allc.items() if v[0] == 'class' and '::' not in k]
        allc[n] = (kind,)
        out += ['%s %s%s {' % (kind, n, ' < ' + r.choice(sup) if kind == 'class' and sup and r.random() < 0.6 else '')] + scope(n, 2, allc) + ['}']
        if r.random() < 0.2:
            out.append('%s = "late%d";' % (r.choice(cn), next(cnt)))
    ks = list(allc)
    mods = [k for k in ks if allc[k][0] == 'module']
    cls = [k for k in ks if allc[k][0] == 'class']
    for _ in range(r.randint(10, 20)):
        k = r.choice(ks)
        c = r.choice(cls) if cls else 'Object'
        n = r.choice(cn)
        x = r.random()
        if x < 0.35:
            out.append(guard('print %s().c%s();' % (c, n)))
        elif x < 0.6:
            out.append(guard('print %s::%s;' % (k, n)))
        elif x < 0.68:
            out.append(guard('print %s.s();' % k))
        elif x < 0.74 and mods:
            out.append(guard('%s.include(%s);' % (c, r.choice(mods))))
        elif x < 0.8:
            out.append(guard('print %s.constGet("%s");' % (c, n)))
        elif x < 0.84:
            out.append(guard('print %s.constDefined("%s");' % (c, n)))
        elif x < 0.88:
            out.append('%s = "re%d";' % (n, next(cnt)))
        elif x < 0.92:
            if '::' not in k:
                out += ['%s %s {' % (allc[k][0], k), '%s = "new%d";' % (n, next(cnt)), '}']
        elif x < 0.96:
            out.append(guard('print %s().set();' % c))
        else:
            out.append(guard('print [%s, %s.name];' % (k, k)))
    for c in cls[:4]:
        for n in cn:
            out.append(guard('print %s().c%s();' % (c, n)))
    for n in cn:
        out.append(guard('print %s;' % n))
    return ind(out)


# ------------------------------------------------------------------ parameter lists against argument lists (P06)

def params(r):
    out = ['var log = [];', 'fun d(v) { log.push(v); return v; }', 'class O { init(v) { this.v = v; } }']
    cnt = itertools.count(1)
    fs = []
    for _ in range(r.randint(2, 4)):
        nreq, nopt, rest, nkw, blk = r.choice([0, 0, 1, 1, 2, 3]), r.choice([0, 0, 1, 2]), r.random() < 0.35, r.choice([0, 0, 1, 2]), r.random() < 0.3
        ps, vs = [], []
        for i in range(nreq):
            vs.append('r%d' % i)
            ps.append(vs[-1])
        def dflt():
            return r.choice(['d(%d)' % next(cnt), '[%d]' % next(cnt), '"o"', 'nil', 'd(%s)' % r.choice(vs) if vs else '7', '%s' % r.choice(vs) if vs else 'd("x")', '[%s, d(0)]' % ', '.join(vs) if vs else 'd(2)'])
        for i in range(nopt):
            ps.append('o%d = %s' % (i, dflt()))
            vs.append('o%d' % i)
        if rest:
            ps.append('*rest')
        rv = vs + (['rest'] if rest else [])
        for i in range(nkw):
            ps.append('k%d: %s' % (i, dflt()))
            vs.append('k%d' % i)
            rv.append('k%d' % i)
        if blk:
            ps.append('&blk')
            rv.append('blk == nil')
        name = 'f%d' % next(cnt)
        kind = r.choice(['fun', 'fun', 'anon', 'meth', 'init', 'static', 'block', 'local'])
        res = 'return [%s];' % ', '.join(rv)
        if kind == 'fun':
            out.append('fun %s(%s) { %s }' % (name, ', '.join(ps), res))
        elif kind == 'anon':
            out.append('var %s = fun(%s) { %s };' % (name, ', '.join(ps), res))
        elif kind == 'local':
            out.append('fun mk%s() { var z = 1; var g = fun(%s) { z = z + 1; %s }; return g; } var %s = mk%s();' % (name, ', '.join(ps), res, name, name))
        elif kind == 'meth':
            out.append('class C%s { m(%s) { %s } } var v%s = C%s();' % (name, ', '.join(ps), res, name, name))
            name = 'v%s.m' % name
        elif kind == 'static':
            out.append('class C%s { class m(%s) { %s } }' % (name, ', '.join(ps), res))
            name = 'C%s.m' % name
        elif kind == 'init':
            out.append('class C%s { init(%s) { this.v = [%s]; } }' % (name, ', '.join(ps), ', '.join(rv)))
            name = 'C%s' % name
        else:
            if any('=' in p or ':' in p or '*' in p or '&' in p for p in ps):
                out.append('fun %s(%s) { %s }' % (name, ', '.join(ps), res))
            else:
                out.append('fun y%s(*as) { return yield(*as); }' % name)
                fs.append(('y' + name, kind, nreq, 0, False, 0, ps, rv))
                continue
        fs.append((name, kind, nreq, nopt, rest, nkw, ps, rv))
    for _ in range(r.randint(8, 16)):
        name, kind, nreq, nopt, rest, nkw, ps, rv = r.choice(fs)
        n = max(0, r.choice([nreq, nreq, nreq + nopt, nreq + r.randint(0, nopt + 1), nreq - 1, nreq + nopt + 1, r.randint(0, 5)]))
        n = min(n, 6)
        as_ = [r.choice(['d(%d)' % next(cnt), '%d' % r.randint(0, 9), '"s"', 'nil', '[1]']) for _ in range(n)]
        if n >= 1 and r.random() < 0.25:
            k = r.randint(0, n - 1)
            j = r.randint(k, n)
            as_[k:j] = ['*[%s]' % ', '.join(as_[k:j])]
        if r.random() < 0.03:
            as_.append('*3')
        pos = list(as_)
        if nkw and kind != 'block':
            for i in range(nkw):
                if r.random() < 0.55:
                    as_.append('k%d: %s' % (i, r.choice(['d(%d)' % next(cnt), '5', 'nil'])))
            if r.random() < 0.15:
                as_[len(pos):] = as_[len(pos):][::-1]
        if r.random() < 0.08 and kind != 'block':
            as_.append('zz: 1')
        b = r.random()
        call = '%s(%s)' % (name, ', '.join(as_[:8]))
        if kind == 'block':
            call += ' -> (%s) { [%s]; }' % (', '.join(ps), ', '.join(rv)) if rv else ' -> () { 1; }'
        elif b < 0.12:
            call += ' -> (x) { x; }'
        if kind == 'init':
            st = 'var o = %s; print o.v;' % call
        else:
            st = 'print %s;' % call
        out += [guard(st), 'print log;', 'log.clear();']
    return ind(out)


LABS.update(classes=classes, consts=consts, params=params)


# ------------------------------------------------------------------ try statements (P04)

ERRS = ['Error', 'TypeError', 'NameError', 'ArgumentError', 'E1', 'E2']
BADOPS = ['nil + 1;', 'undefinedv;', '[1].zz();', 'nil.m();', 'two(1);', 'Zundef;', 'Error.nope();', '"a" * "b";', '[].fill();', '5();', 'var q1, q2 = 7;', 'foreach (w in 9) { print w; }',
          '[1].map() -> (b) { b.zz; b + nil; };', 'two(*5);', 'frozen.push(1);', '%{}.keys(3);', 'E1(1, 2, 3);']


def trys(r):
    out = ['class E1 < Error {}', 'class E2 < E1 {}', 'fun two(a, b) { return a; }', 'var frozen = [1]; frozen.freeze();',
           'fun thr(c, m) { var l1 = m; throw c(l1); }', 'fun deep(n, c, m) { var z = n; if (n == 0) { throw c(m); } var q = deep(n - 1, c, m); return z; }', 'class T { init() { this.v = 0; } m(c) { this.v += 1; throw c("m"); } g { throw E2("g"); } }', 'var ot = T();']
    cnt = itertools.count(1)

    def cls(opt=True):
        c = r.choice(ERRS)
        return 'catch (%s e%s) { print "c%d"; print classof(e%s); print e%s.message; ' if opt else c

    def boom(vis, d):
        k = r.random()
        m = '"m%d"' % next(cnt)
        c = r.choice(ERRS)
        if k < 0.3:
            return ['throw %s(%s);' % (c, m)]
        if k < 0.4:
            return ['thr(%s, %s);' % (c, m)]
        if k < 0.48:
            return ['deep(%d, %s, %s);' % (r.randint(0, 4), c, m)]
        if k < 0.55:
            return ['ot.m(%s);' % c] if r.random() < 0.6 else ['ot.g;']
        if k < 0.62:
            return ['[1, 2, 3].%s() -> (b) { if (b == %d) { throw %s(%s); } b; };' % (r.choice(['each', 'map', 'select']), r.randint(1, 4), c, m)]
        if k < 0.67:
            return ['throw %s;' % m]
        if k < 0.74 and vis:
            return ['%s = [%s, thr(%s, %s)];' % (r.choice(vis), r.choice(vis), c, m)]
        if k < 0.8:
            return ['print [1, two(2, thr(%s, %s)), 3];' % (c, m)]
        return [r.choice(BADOPS)]

    def stmts(d, vis, n, rethrow=None):
        l = []
        vis = list(vis)
        for _ in range(n):
            k = r.random()
            if k < 0.2:
                v = 'v%d' % next(cnt)
                l.append('var %s = %d;' % (v, r.randint(0, 99)))
                vis.append(v)
            elif k < 0.3 and vis:
                v = r.choice(vis)
                l.append('%s = %d;' % (v, r.randint(100, 199)))
            elif k < 0.42 and vis:
                l.append('print [%s];' % ', '.join(r.sample(vis, min(3, len(vis)))))
            elif k < 0.5:
                l.append('print "s%d";' % next(cnt))
            elif k < 0.68:
                b = boom(vis, d)
                if r.random() < 0.35:
                    b = ['if (%s) {' % r.choice(['true', 'false', 'nil', '0'])] + b + ['}']
                l += b
            elif rethrow and k < 0.76:
                l.append('throw %s;' % rethrow)
            elif d > 0:
                k2 = r.random()
                if k2 < 0.7:
                    l += trystmt(d - 1, vis)
                elif k2 < 0.8:
                    i = 'i%d' % next(cnt)
                    l.append('foreach (%s in [1, 2]) {' % i)
                    l += stmts(d - 1, vis + [i], r.randint(1, 3), rethrow)
                    l.append('}')
                elif k2 < 0.9:
                    l.append('[5, 6].each() -> (b%d) {' % next(cnt))
                    l += stmts(d - 1, vis, r.randint(1, 3), rethrow)
                    l += ['1;', '};']
                else:
                    f = 'f%d' % next(cnt)
                    l.append('var %s = fun(p) {' % f)
                    l += stmts(d - 1, vis + ['p'], r.randint(1, 3), rethrow)
                    l += ['return p;', '};', 'print %s(%d);' % (f, r.randint(0, 9))]
            else:
                l.append('print "t%d";' % next(cnt))
        return l

    def trystmt(d, vis):
        l = ['try {'] + stmts(d, vis, r.randint(1, 4)) + ['}']
        nc = r.choice([0, 1, 1, 1, 2, 3])
        for _ in range(nc):
            c = r.choice(ERRS)
            if r.random() < 0.8:
                e = 'e%d' % next(cnt)
                l[-1] += ' catch (%s %s) {' % (c, e)
                l += ['print [%s.message, classof(%s)];' % (e, e)] + stmts(d, vis, r.randint(0, 2), e) + ['}']
            else:
                l[-1] += ' catch (%s) {' % c
                l += ['print "c%d";' % next(cnt)] + stmts(d, vis, r.randint(0, 2)) + ['}']
        if nc and r.random() < 0.35:
            l[-1] += ' else {'
            l += ['print "else%d";' % next(cnt)] + stmts(d, vis, r.randint(0, 2)) + ['}']
        if nc == 0 or r.random() < 0.5:
            l[-1] += ' ensure {'
            l += ['print "en%d";' % next(cnt)] + stmts(d, vis, r.randint(0, 2)) + ['}']
        return l

    for i in range(r.randint(2, 4)):
        k = r.random()
        n = next(cnt)
        if k < 0.25:
            body = trystmt(2, [])
        elif k < 0.5:
            body = ['fun g%d(p, q = 4) {' % n, 'var a%d = p;' % n] + trystmt(2, ['p', 'q', 'a%d' % n]) + ['return [p, q, a%d];' % n, '}', 'print g%d(%d);' % (n, r.randint(0, 9))]
        elif k < 0.65:
            body = ['class K%d {' % n, 'm(p) {', 'var a = p;'] + trystmt(2, ['p', 'a']) + ['return [p, a];', '}', '}', 'print K%d().m(3);' % n]
        elif k < 0.8:
            body = ['foreach (w%d in [1, 2]) {' % n] + ['var a%d = w%d;' % (n, n)] + trystmt(1, ['w%d' % n, 'a%d' % n]) + ['print [w%d, a%d];' % (n, n), '}']
        elif k < 0.92:
            body = ['%s %s%d {' % (r.choice(['class', 'module']), 'B', n), 'var a%d = 1;' % n] + trystmt(1, ['a%d' % n]) + ['X%d = a%d;' % (n, n), 'print X%d;' % n, '}', 'print B%d::X%d;' % (n, n)]
        else:
            body = ['fun y%d() {' % n, 'var a = 1;'] + ['try {', 'print yield(a);', 'a = 2;', '} catch (%s e) {' % r.choice(ERRS), 'print e.message;', '} ensure {', 'print "yen";', '}', 'return a;', '}', 'print y%d() -> (x) {' % n] + stmts(1, ['x'], 2) + ['x;', '};']
        out += ['try {'] + body + ['} catch (Error e) {', 'print [classof(e), e.message];', '}']
    out.append('print "end";')
    return ind(out)


# ------------------------------------------------------------------ nested loops and jumps (P03)

def loops(r):
    out = []
    cnt = itertools.count(1)

    def jump(infun, l):
        ks = ['break;', 'continue;', 'break;', 'continue;'] + (['return [%s];' % ', '.join(l)] if infun and l else [])
        return r.choice(ks)

    def body(d, vis, infun, cap):
        l = []
        vis = list(vis)
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < 0.2:
                v = 'v%d' % next(cnt)
                l.append('var %s = %s;' % (v, r.choice(vis)))
                vis.append(v)
            elif k < 0.35:
                l.append('print [%s];' % ', '.join(r.sample(vis, min(4, len(vis)))))
            elif k < 0.5:
                l += ['if (%s %s %d) {' % (r.choice(vis), r.choice(['==', '>', '<', '!=']), r.randint(0, 3)), jump(infun, vis[-3:]), '}']
                if r.random() < 0.3:
                    l[-1:] = ['} else {', 'print "x%d";' % next(cnt), '}']
            elif k < 0.6:
                l.append('cs.push(fun() { return [%s]; });' % ', '.join(r.sample(vis, min(3, len(vis)))))
            elif k < 0.67:
                w = [v for v in vis if v[0] in 'va']
                if w:
                    l.append('%s = (%s + 1) %% 50;' % (w[-1], w[-1]))
            elif d > 0:
                l += loop(d - 1, vis, infun, cap)
            else:
                l.append('print "q%d";' % next(cnt))
        return l

    def loop(d, vis, infun, cap):
        k = r.random()
        if k < 0.35:
            i = 'i%d' % next(cnt)
            n = r.randint(1, 3)
            inc = r.choice(['%s += 1' % i, '%s = %s + 1' % (i, i), '%s += 2' % i])
            return ['for (var %s = 0; %s < %d; %s) {' % (i, i, n, inc)] + body(d, vis + [i], infun, cap) + ['}']
        if k < 0.6:
            w = 'w%d' % next(cnt)
            # the counter goes first: continue can't skip it
            return ['var %s = %d;' % (w, r.randint(0, 3)), 'while (%s > 0) {' % w, '%s -= 1;' % w] + body(d, vis + [w], infun, cap) + ['}']
        if k < 0.68:
            w = 'w%d' % next(cnt)
            return ['var %s = 0;' % w, 'while (true) {', '%s += 1;' % w, 'if (%s > %d) {' % (w, r.randint(1, 3)), 'break;', '}'] + body(d, vis + [w], infun, cap) + ['}']
        x = 'x%d' % next(cnt)
        if k < 0.85:
            return ['foreach (%s in [%s]) {' % (x, ', '.join(str(r.randint(1, 5)) for _ in range(r.randint(0, 3))))] + body(d, vis + [x], infun, cap) + ['}']
        y = 'y%d' % next(cnt)
        return ['foreach (%s, %s in [[1, 2], [3, %d]]) {' % (x, y, r.randint(0, 9))] + body(d, vis + [x, y], infun, cap) + ['}']

    out.append('var cs = [];')
    for _ in range(r.randint(1, 3)):
        n = next(cnt)
        k = r.random()
        if k < 0.5:
            out += ['fun f%d(a, b = 2) {' % n, 'var vl%d = b;' % n] + loop(2, ['a', 'b', 'vl%d' % n], True, None) + ['var vz = 7;', 'return [a, b, vl%d, vz];' % n, '}', 'print f%d(%d);' % (n, r.randint(0, 4))]
        elif k < 0.75:
            out += ['var a%d = %d;' % (n, r.randint(0, 4))] + loop(2, ['a%d' % n], False, None) + ['print a%d;' % n]
        elif k < 0.88:
            out += ['class L%d {' % n, 'm(a) {', 'this.p = a;'] + loop(2, ['a'], True, None) + ['return this.p;', '}', '}', 'print L%d().m(%d);' % (n, r.randint(0, 4))]
        else:
            out += ['print [4, 5].map() -> (a) {'] + loop(1, ['a'], False, None) + ['a;', '};']
    out.append('foreach (c in cs) { print c(); }')
    return ind(out)


# ------------------------------------------------------------------ blocks, yield and native iteration (P05)

def jumps(r):
    out = ['class E1 < Error {}', 'fun y1() { print "y1"; var r = yield(1); print ["y1", r]; return r; }', 'fun y2(a, b) { var l = [a]; l.push(yield(a, b)); l.push(yield(b)); return l; }',
           'fun pass(a, &blk) { var q = a; print blk == nil; var v = y2(a, q, blk); return [v, q]; }', 'fun st(&blk) { return blk; }', 'fun given() { return blockGiven(); }',
           'class W { init(l) { this.l = l; } each() { var n = 0; foreach (x in this.l) { n += 1; yield(x, n); } return n; } map2(&blk) { return this.l.map(&blk); } }']
    cnt = itertools.count(1)

    def call(d, vis, infun):
        k = r.random()
        arr = '[%s]' % ', '.join(str(r.randint(1, 6)) for _ in range(r.choice([0, 1, 2, 3, 3, 4])))
        b = 'b%d' % next(cnt)
        if k < 0.5:
            m = r.choice(['each', 'each', 'map', 'select', 'reject', 'find', 'reduce', 'sortBy'])
            if m == 'reduce':
                c = 'k%d' % next(cnt)
                return '%s.reduce(%d)' % (arr, r.randint(0, 5)), [b, c]
            if m == 'sortBy':
                c = 'k%d' % next(cnt)
                return '%s.sortBy()' % arr, [b, c]
            return '%s.%s()' % (arr, m), [b]
        if k < 0.6:
            return 'y1()', [b]
        if k < 0.72:
            c = 'k%d' % next(cnt)
            return 'y2(%d, %d)' % (r.randint(0, 9), r.randint(0, 9)), [b, c]
        if k < 0.82:
            return 'pass(%d)' % r.randint(0, 9), [b]
        if k < 0.92:
            return 'W(%s).each()' % arr, [b]
        return 'W(%s).map2()' % arr, [b]

    def stmts(d, vis, infun, inblk, n):
        l = []
        vis = list(vis)
        for _ in range(n):
            k = r.random()
            if k < 0.15:
                v = 'v%d' % next(cnt)
                l.append('var %s = %s;' % (v, r.choice(vis) if vis else '1'))
                vis.append(v)
            elif k < 0.3 and vis:
                l.append('print [%s];' % ', '.join(r.sample(vis, min(3, len(vis)))))
            elif k < 0.5 and inblk and vis:
                j = r.choice(['break;', 'continue;', 'return %s;' % r.choice(vis), 'return [%s];' % r.choice(vis), 'throw E1("t%d");' % next(cnt)])
                l += ['if (%s %s %d) {' % (r.choice(vis), r.choice(['==', '!=']), r.randint(1, 4)), j, '}']
            elif k < 0.58 and vis:
                w = [v for v in vis if v[0] == 'v']
                if w:
                    l.append('%s = [%s];' % (r.choice(w), r.choice(vis)))
            elif k < 0.65:
                i = 'i%d' % next(cnt)
                l.append('foreach (%s in [1, 2, 3]) {' % i)
                l += stmts(d - 1, vis + [i], infun, inblk, 1) if d > 0 else ['print %s;' % i]
                l += ['if (%s == 2) {' % i, r.choice(['break;', 'continue;', 'print 0;']), '}', '}']
            elif k < 0.7:
                l += ['try {'] + stmts(0, vis, infun, False, 2) + ['} catch (Error e) {', 'print e.message;', '}']
            elif d > 0:
                c, ps = call(d, vis, infun)
                last = r.choice(ps + vis + ['nil', '7', 'true'])
                pre = r.choice(['print %s -> (%s) {', 'var u%d = %%s -> (%%s) {' % next(cnt), '%s -> (%s) {'])
                l.append(pre % (c, ', '.join(ps)))
                if 'sortBy' not in c:  # in which order it compares elements isn't specified
                    l += stmts(d - 1, vis + ps, infun, True, r.randint(1, 3))
                if 'sortBy' in c:
                    last = r.choice(['%s - %s' % (ps[0], ps[1]), '%s - %s' % (ps[1], ps[0]), '0'])
                elif 'reduce' in c:
                    last = r.choice(['%s + 1' % ps[0], '%s' % ps[0], '3'])
                l += ['%s;' % last, '};']
            else:
                l.append('print "p%d";' % next(cnt))
        return l

    for _ in range(r.randint(2, 4)):
        n = next(cnt)
        k = r.random()
        if k < 0.4:
            body = ['fun f%d(a, b = 2) {' % n, 'var vl = a;'] + stmts(3, ['a', 'b', 'vl'], True, False, 4) + ['return [a, b, vl];', '}', 'print f%d(%d);' % (n, r.randint(0, 4))]
        elif k < 0.75:
            body = stmts(3, [], False, False, 4)
        else:
            b = 'z%d' % n
            blk = r.choice(['fun(x) { return x; }', 'fun(x) { throw E1("bf"); }', 'fun(x) { print x; }', 'fun(x, y) { return [x, y]; }', 'fun() { return 9; }', 'fun(x) { return given(); }'])
            body = ['var %s = %s;' % (b, blk), r.choice(['print [1, 2].map(&%s);' % b, 'print y1(&%s);' % b, 'print y2(1, 2, &%s);' % b, 'print pass(3, &%s);' % b, 'print st(&%s);' % b, 'print given(&%s);' % b, 'print st(&%s).yield(4);' % b, 'print y1(&nil);',
                                                            'print st() -> (x) { x; };', 'print given() -> (x) { x; };', 'print given();', 'print [1, 2].each(&%s);' % b, 'print [3, 1, 2].select(&%s);' % b])]
        out += ['try {'] + body + ['} catch (Error e) {', 'print [classof(e), e.message];', '}']
    return ind(out)


# ------------------------------------------------------------------ iteration (P15)

def iters(r):
    out = ['class It { init(n, k = 0) { this.n = n; this.i = k; } iterNext() { this.i += 1; if (this.i > this.n) { return nil; } return [this.i, this.n]; } iter() { return this; } }',
           'class Ar { init(a) { this.a = a; } iter() { return this.a; } }', 'class Bad { iter() { return 5; } }', 'class Sub < Ar { iter() { return [0, 0].concat ; } }' if False else 'class Sub < Ar { }', 'var log = [];', 'fun d(v) { log.push("d"); return v; }']
    cnt = itertools.count(1)

    def elem():
        return r.choice(['%d' % r.randint(1, 9), '%d' % r.randint(1, 9), '"s%d"' % r.randint(0, 3), '[%d, %d]' % (r.randint(1, 9), r.randint(1, 9)), '[%d]' % r.randint(1, 9), '[[1, 2], 3]', 'true'])

    def src(v):
        k = r.random()
        if k < 0.45:
            return '[%s]' % ', '.join(elem() for _ in range(r.choice([0, 1, 2, 3, 4])))
        if k < 0.65:
            return '%%{%s}' % ', '.join('"%s": %s' % (c, elem()) for c in r.sample('abcd', r.choice([0, 1, 1, 2, 3])))
        if k < 0.72:
            return 'It(%d)' % r.randint(0, 3)
        if k < 0.78:
            return r.choice(['Ar', 'Sub']) + '(%s)' % r.choice(['[1, 2]', '[[1, 2], [3, 4]]', '%{"k": 1}', '[4, 5].iter()' if False else '[]'])
        if k < 0.82:
            return r.choice(['5', 'nil', 'true', 'Bad()', 'Object()'])
        return 'a%d' % v

    def mut(a, x):
        return r.choice(['%s.push(7);' % a if False else 'if (%s.size < 5) { %s.push(%d); }' % (a, a, r.randint(1, 9)), '%s.pop();' % a, '%s.popFront();' % a, '%s.clear();' % a, 'if (%s.size < 5) { %s.pushFront(8); }' % (a, a), '%s.delete(%s);' % (a, x), '%s[0] = 6;' % a])

    def loop(d, v, depth=0):
        m = r.choice([1, 1, 1, 2, 2, 3])
        xs = ['x%d' % next(cnt) for _ in range(m)]
        s = src(v)
        l = ['foreach (%s in %s) {' % (', '.join(xs), 'd(%s)' % s if r.random() < 0.2 else s)]
        l.append('print [%s];' % ', '.join(xs))
        for _ in range(r.randint(0, 2)):
            k = r.random()
            if k < 0.35 and s == 'a%d' % v and m == 1:
                l.append(mut(s, xs[0]))
            elif k < 0.5:
                l += ['if (%s == %s) {' % (r.choice(xs), elem()), r.choice(['break;', 'continue;']), '}']
            elif k < 0.7 and d > 0:
                l += loop(d - 1, v)
            elif k < 0.8:
                l.append('fs.push(fun() { return [%s]; });' % ', '.join(xs))
            elif k < 0.9:
                l.append('%s = %s;' % (r.choice(xs), elem()))
            else:
                l.append('log.push(%s);' % xs[0])
        return l + ['}']

    out.append('var fs = [];')
    for _ in range(r.randint(2, 5)):
        v = next(cnt)
        out.append('var a%d = [%s];' % (v, ', '.join(elem() for _ in range(r.randint(1, 4)))))
        k = r.random()
        if k < 0.55:
            body = loop(2, v)
        elif k < 0.75:
            body = ['fun f%d(q) {' % v, 'var z = q;'] + loop(1, v) + ['return [q, z];', '}', 'print f%d(%d);' % (v, v)]
        elif k < 0.9:
            i = 'i%d' % v
            body = ['var %s = %s.iter();' % (i, r.choice(['a%d' % v, '[1, 2]', '[]', '%{"a": 1}']))]
            for _ in range(r.randint(1, 4)):
                body.append(r.choice(['print %s.next();' % i, 'print %s.next();' % i, 'a%d.push(5);' % v, 'print typeof(%s);' % i]))
        else:
            body = ['var u, w = %s;' % src(v), 'print [u, w];']
        out += ['try {'] + body + ['} catch (Error e) {', 'print [classof(e), e.message];', '}', 'print a%d;' % v]
    out += ['foreach (f in fs) { print f(); }', 'print log;']
    return ind(out)


# ------------------------------------------------------------------ frozen objects (P14)

FZ = {
    'array': ('[3, 1, 2]', ['%s.push(4)', '%s.pushFront(4)', '%s.pop()', '%s.popFront()', '%s[0] = 9', '%s.delete(1)', '%s.clear()', '%s.insertAt(5, 1)', '%s.sort()', '%s.concat([1])', '%s.map() -> (x) { x; }', '%s.dup()', '%s.reverse()', '%s.fill(0)', '%s.select() -> (x) { true; }',
                             '%s.size', '%s[1]', '%s + [1]', '%s.join(",")', '%s.sortBy() -> (a, b) { a - b; }', '%s.iter().next()', '%s.q = 1', '%s.setProperty("q", 1)', '%s.wrap(1)', '%s[-1] = 4', '%s[7] = 4', '%s.each() -> (x) { x; }', '%s.push()']),
    'map': ('%%{"a": 1}', ['%s["a"] = 2', '%s["b"] = 2', '%s.delete("a")', '%s.delete("zz")', '%s.clear()', '%s.merge(%%{"c": 3})', '%s.mergeWith(%%{"c": 3})', '%s.keys()', '%s.values()', '%s.dup()', '%s["a"]', '%s.hasKey("a")', '%s.get("a")', '%s.rehash()', '%s.size', '%s.q = 1', '%s.each() -> (k, v) { k; }', '%s.set("b", 3)', '%s.delete("a", "b")', '%s.isEmpty()']),
    'string': ('"abc"', ['%s.push("d")', '%s[0] = "z"', '%s.clear()', '%s.insertAt("q", 1)', '%s.upcase()', '%s.dup()', '%s + "d"', '%s[0]', '%s.delete("a")', '%s.pad(5, "x")', '%s.split("b")', '%s.replace("a", "b")', '%s.size', '%s[1] = "xyz"', '%s * 2', '%s.lstrip()', '%s.strip()', '%s.rest(1)', '%s.startsWith("a")', '%s.unshift("z")', '%s.q = 1', '%s.each() -> (c) { c; }', '%s.join("a")' if False else '%s.substr(0, 1)', '%s.compactInPlace()' if False else '%s.endsWith("c")', '%s.opAddAssign("x")' if False else '%s.clear("x")']),
    'inst': ('P(1)', ['%s.v = 5', '%s.w = 5', '%s.v', '%s.setProperty("v", 7)', '%s.setProperty("nw", 7)', '%s.up()', '%s.s = 4', '%s.dup().up()', '%s.extend(MX)', '%s.mx()', '%s.hasProperty("v")', '%s.getProperty("v")', '%s.lst.push(2)', '%s.init(9)', '%s.send("up")', '%s == %s', '%s.v += 1' if False else '%s.up()']),
    'class': ('mk()', ['%s.st = 1', '%s.st', '%s.defineMethod("a", fun() { return 1; })', '%s.include(MX)', '%s.aliasMethod("b", "z")', '%s().z()', '%s.setProperty("st", 3)', '%s.name']),
}


def freezes(r):
    out = ['module MX { mx() { return "mx"; } }', 'class P { init(v) { this.v = v; this.lst = [v]; } up() { this.v = this.v + 1; return this.v; } s=(x) { this.v = x; } }', 'class S < P { init(v) { super.init(v); this.w = v; } }',
           'class K1 { z() { return "z"; } }', 'class K2 { z() { return "z"; } }', 'class K3 { z() { return "z"; } }', 'var kn = 0;', 'fun mk() { kn += 1; return [K1, K2, K3][(kn - 1) % 3]; }']
    vs = []
    for i in range(r.randint(2, 4)):
        k = r.choice(['array', 'array', 'map', 'map', 'string', 'string', 'inst', 'inst', 'class'])
        init = FZ[k][0].replace('%%', '%')
        if k == 'inst' and r.random() < 0.4:
            init = 'S(2)'
        out.append('var o%d = %s;' % (i, init))
        if r.random() < 0.3:
            out.append('var p%d = [o%d];' % (i, i))
        vs.append(('o%d' % i, k))
    for _ in range(r.randint(8, 18)):
        v, k = r.choice(vs)
        x = r.random()
        if x < 0.14:
            st = '%s.freeze(); ' % v
        elif x < 0.2:
            st = '%s.unfreeze(); ' % v
        elif x < 0.26:
            st = 'print %s.isFrozen();' % v
        elif x < 0.3 and k != 'class':
            st = 'var z = %s.dup(); print z.isFrozen(); print z; ' % v
        else:
            t = r.choice(FZ[k][1])
            e = t.replace('%%', '%').replace('%s', v)
            blk = e.endswith('}')
            st = ('print %s;' % e) if ' = ' not in e or blk else e + ';'
        out += guard(st).split('\n') if False else [guard(st)]
        if k != 'inst':
            out.append('print %s;' % v)
        else:
            out.append('print [%s.v, %s.lst];' % (v, v))
    return ind(out)


LABS.update(trys=trys, loops=loops, jumps=jumps, iters=iters, freezes=freezes)


# ------------------------------------------------------------------ constant expressions (P01, P08)

def folds(r):
    """expressions of literals only, which the compiler evaluates; the same ones with variables, which it doesn't"""
    out = ['var z = 0;', 'var one = 1;', 'fun id(v) { return v; }']

    def lit():
        x = r.random()
        k = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 100, 255])
        if x < 0.55:
            return '%d' % k
        if x < 0.65:
            return '(0 - %d)' % k
        if x < 0.75:
            return '-%d' % k
        if x < 0.82:
            return r.choice(['0.5', '2.5', '1.25', '10.75', '(0 - 2.5)'])
        if x < 0.9:
            return r.choice(['"a"', '"b"', '""', '"1"', '"ab"'])
        if x < 0.97:
            return r.choice(['true', 'false', 'nil'])
        return '(%s)' % r.choice(['z', 'one', 'id(3)'])

    def num():
        x = r.random()
        k = r.choice([0, 1, 2, 3, 5, 6, 7, 11, 12, 64, 1000])
        return '%d' % k if x < 0.6 else '(0 - %d)' % k if x < 0.8 else '-%d' % k if x < 0.9 else r.choice(['2.5', '0.25', '(1 - 3.5)'])

    def expr(d, leaf):
        if d == 0:
            return leaf()
        op = r.choice(BINOPS[:16] if leaf is lit or r.random() < 0.1 else BINOPS[:10])
        if op in ('<<', '>>'):
            return '(%s %s %s)' % (expr(d - 1, leaf), op, r.choice(['0', '1', '2', '3', '8', 'one']))
        if op in ('/', '%'):
            return '(%s %s %s)' % (expr(d - 1, leaf), op, r.choice(['2', '4', '8', '(0 - 2)', '0.5', '-4', 'true', '"a"'][:7 if leaf is lit else 6]) if op == '/' else r.choice(['1', '3', '7', '(0 - 5)', '10']))
        l, rr = expr(d - 1 if r.random() < 0.7 else 0, leaf), expr(d - 1 if r.random() < 0.5 else 0, leaf)
        e = '%s %s %s' % (l, op, rr)
        if r.random() < 0.7:
            e = '(%s)' % e
        if r.random() < 0.1:
            e = '%s(%s)' % (r.choice(['!', '-']), e)
        return e
    for i in range(9):
        leaf = r.choice([num, num, lit])
        e = expr(r.choice([1, 1, 1, 2, 2]), leaf)
        x = r.random()
        if x < 0.6:
            out.append(show(e))
        elif x < 0.7:
            out.append('try { if (%s) { print "yes"; } else { print "no"; } } catch (Error e) { print e.message; }' % e)
        elif x < 0.78:
            out += ['fun c%d(a = %s) {' % (i, expr(2, num)), 'return a;', '}', 'try { print c%d(); } catch (Error e) { print e.message; }' % i]
        elif x < 0.86:
            out.append('try { print [%s, %s]; } catch (Error e) { print e.message; }' % (e, expr(1, leaf)))
        elif x < 0.93:
            out += ['var v%d = %s;' % (i, num()), 'v%d %s= %s;' % (i, r.choice(['+', '-', '*']), expr(1, num) if r.random() < 0.5 else num()), 'print v%d;' % i]
        else:
            out.append('try { print "<${%s}>"; } catch (Error e) { print e.message; }' % e if '"' not in e else show(e))
    return ind(out)


LABS['folds'] = folds


# ------------------------------------------------------------------ which thread has which mutex (P17)

def mutexes(r):
    """threads that lock several mutexes, unlock some of them and end in any way: the others get them"""
    nm, nt = r.randint(1, 4), r.randint(1, 3)
    out = ['var n = 0;', 'var log = [];', 'var ts = [];'] + ['var m%d = Mutex();' % i for i in range(nm)]
    for t in range(nt):
        out.append('ts.push(newThread(fun() {')
        ms = sorted(r.sample(range(nm), r.randint(1, nm)))
        nest = r.random() < 0.3
        if nest:
            out.append('try {')
        held = []
        for m in ms:
            out.append('m%d.lock();' % m)
            held.append(m)
            if r.random() < 0.5:
                out.append('n = n + %d;' % r.randint(1, 9))
            if held and r.random() < 0.25:
                out.append('m%d.unlock();' % held.pop(r.randrange(len(held))))
            if r.random() < 0.1:
                out.append('try { m%d.unlock(); } catch (Error e) { n = n + 100; }' % r.choice([q for q in range(nm) if q not in held] or [0]) if len(held) < nm else 'n = n + 1;')
        r.shuffle(held)
        for m in held[:r.randint(0, len(held))] if r.random() < 0.8 else held:
            out.append('m%d.unlock();' % m)
        x = r.random()
        if x < 0.5:
            out.append(r.choice(['return;', 'exit(1);', 'throw Error("t");', 'nofn();', '_exit(2);']))
        if nest:
            out += ['} catch (Error e) {', 'n = n + 1000;', '}']
        out += ['}));']
        if r.random() < 0.3:
            m = r.randrange(nm)
            out += ['m%d.lock();' % m, 'log.push(%d);' % t, 'm%d.unlock();' % m]
    for t in range(nt):
        out.append('joinThread(ts[%d]);' % t)
    for m in r.sample(range(nm), nm):
        out += ['m%d.lock();' % m, 'print "m%d";' % m]
        if r.random() < 0.7:
            out.append('m%d.unlock();' % m)
    for m in range(nm):
        if r.random() < 0.4:
            out.append('try { m%d.unlock(); print "u"; } catch (Error e) { print e.message; }' % m)
    out += ['print n;', 'print log;']
    if r.random() < 0.3:
        out.append(r.choice(['exit(4);', 'throw Error("end");', '_exit(5);']))
    return ind(out)


LABS['mutexes'] = mutexes


# ------------------------------------------------------------------ programs of several files (P23)

def scripts(r):
    """files that load each other: load path, names, repeated and circular loads, errors, what they share"""
    dirs = r.sample(['a', 'b', 'c', 'dd'], r.randint(1, 3))
    stems = r.sample(['one', 'two', 'sub/x', 'sub/y', 'tri', 'sub', 'q.lox.d/z', 'Four'], r.randint(2, 5))
    paths = []
    for s in stems:
        for d in r.sample(dirs, r.choice([1, 1, 1, min(2, len(dirs))])):
            p = d + '/' + s + r.choice(['.lox', '.lox', '.lox', ''])
            # a file can't be a directory too
            if not any(q == p or q.startswith(p + '/') or p.startswith(q + '/') for q in paths):
                paths.append(p)
    if r.random() < 0.3:
        paths.append('far/%s.lox' % r.choice(['rr', stems[0].replace('/', '_')]))
    cnt = itertools.count(1)
    n0 = r.choice([0, 0, 3])
    consts, funs, classes_, gl = [], [], [], ['g0']
    for i in range(len(paths)):
        consts.append('K%d' % i)
        funs.append('f%d' % i)
        classes_.append('C%d' % i)

    def name():
        k = r.random()
        if k < 0.72:
            s = r.choice(stems)
            return '"%s"' % (s + r.choice(['', '', '', '', '.lox']))
        if k < 0.78:
            return '"%s"' % r.choice(paths).split('/', 1)[1]
        if k < 0.88:
            return '"/D/%s"' % r.choice(paths)
        if k < 0.92:
            return '"nofile%d"' % next(cnt)
        if k < 0.94:
            return '"/D/%s"' % r.choice(['nofile.lox', dirs[0]])
        if k < 0.97 and len(paths) > 1:
            p = r.choice(paths)
            return '__DIR__ + "/%s"' % r.choice(paths).split('/', 1)[1]
        return r.choice(['7', 'nil', '[1]'])

    def load():
        return r.choice(['requireScript'] * 5 + ['loadScript']) + '(' + name() + ')'

    def stmts(n, who, d, infun):
        l = []
        for _ in range(n):
            k = r.random()
            if k < 0.05:
                l.append('print %s;' % load())
            elif k < 0.06:
                l.append('%s;' % load())
            elif k < 0.5:
                l += ['try {', 'print %s;' % load(), '} catch (%s e) {' % r.choice(['Error', 'Error', 'LoadError', 'SyntaxError', 'E0']), 'print [e.class, e.message];', '}'] \
                    + (['ensure {', 'print "ens%d";' % next(cnt), '}'] if r.random() < 0.3 else [])
            elif k < 0.56:
                l.append('g0 = g0 + %d;' % r.choice([1, 10]))
            elif k < 0.62:
                l.append('print g0;')
            elif k < 0.68:
                l.append('try { print %s; } catch (Error e) { print e.message; }' % r.choice(consts + ['%s()' % f for f in funs] + ['%s().v()' % c for c in classes_] + ['h%d' % r.randint(0, len(paths)), 'Au%d' % r.randint(0, 2)]))
            elif k < 0.72 and d > 0:
                v = 'v%d' % next(cnt)
                l += ['for (var %s = 0; %s < %d; %s += 1) {' % (v, v, r.randint(1, 3), v)] + stmts(2, who, d - 1, infun) + ['print %s;' % v] + r.choice([[], ['if (%s == 1) { break; }' % v]]) + ['}']
            elif k < 0.78 and d > 0:
                v = 'b%d' % next(cnt)
                l += ['%s.%s() -> (%s) {' % (r.choice(['[1, 2]', '[3]']), r.choice(['each', 'map']), v), 'var w%s = [%s];' % (v, v)] + stmts(1, who, d - 1, False) + ['print w%s;' % v, v + ';', '};']
            elif k < 0.86 and d > 0:
                f = 'u%d' % next(cnt)
                v = 'l%d' % next(cnt)
                l += ['fun %s(p) {' % f, 'var %s = [p];' % v] + stmts(r.randint(1, 2), who, d - 1, True) + [r.choice(['%s.push(2);' % v, 'p = p + 1;']), 'return [%s, p];' % v, '}', 'print %s(%d);' % (f, r.randint(1, 9))]
            elif k < 0.9:
                l.append(r.choice(['loadPath.push("/D/far");', 'loadPath.push("%s");' % r.choice(dirs), 'loadPath.pushFront("%s");' % r.choice(dirs + ['./' + dirs[0], '.']), 'loadPath.pop();', 'loadPath.push(3);' if r.random() < 0.3 else 'print loadPath.size;', 'loadPath.push("./%s/");' % dirs[-1]]))
            elif k < 0.94:
                l.append('autoload("%s", %s);' % (r.choice(consts + classes_ + ['Au%d' % r.randint(0, 2)]), name()))
            elif k < 0.96 and who is not None:
                l.append(r.choice(['return;', 'return 5;', 'throw E0("e%d");' % next(cnt), 'throw "s%d";' % next(cnt)]) if not infun else 'if (g0 > %d) { return 0; }' % r.choice([3, 20]))
            elif k < 0.97:
                l.append('if (g0 > 2) { print "over"; }')
            elif k < 0.98:
                l.append('atExit(fun() { print "x%d"; %s });' % (next(cnt), r.choice(['', '', load() + ';'])))
            else:
                l.append('class M%d { m() { return %s; } }' % (next(cnt), load()))
                l.append('print M%d().m();' % (next(cnt) - 1))
        return l

    out = []
    order = ':'.join(r.choice([d, d, '/D/' + d, './' + d]) for d in (dirs + (['.'] if r.random() < 0.15 else [])))
    out.append('//@lp ' + order)
    out += ['var g0 = %d;' % n0, 'class E0 < Error {}', 'print __FILE__;']
    if r.random() < 0.3:
        out.append('autoload("Au%d", %s);' % (r.randint(0, 2), name()))
    out += stmts(r.randint(4, 10), None, 2, False)
    out += ['print g0;', 'print __FILE__;', 'print __DIR__;']
    for i, p in enumerate(paths):
        if r.random() < 0.08:
            out += ['//@bad ' + p, 'print "bad";', r.choice(['var = 3;', 'print (1;', 'fun {', '}', 'break;'])]
            continue
        out.append('//@file ' + p)
        # what a file defines
        body = ['print "in %s";' % p, 'g0 = g0 + 1;']
        if r.random() < 0.5:
            body.append('print __FILE__;')
        if r.random() < 0.2:
            body.append('print __DIR__;')
        defs = [['%s = %d;' % (consts[i], 100 + i)], ['fun %s() { return [%d, g0, %s]; }' % (funs[i], i, r.choice(consts))],
                ['class %s%s { v() { return %s; } }' % (classes_[i], r.choice(['', '', ' < ' + r.choice(classes_[:i]) if i else '']), r.choice(['"v%d"' % i, 'this.class', r.choice(consts)]))],
                ['if (true) {', 'var t%d = %d;' % (i, i), 'h%d = fun() { t%d += 1; return t%d; };' % (i, i, i), '}', 'print h%d();' % i], ['var h%d = g0;' % i], ['Au%d = %d;' % (r.randint(0, 2), 40 + i)], ['module Md%d { Z = %d; }' % (i, i), 'print Md%d::Z;' % i]]
        for d in r.sample(defs, r.randint(1, 4)):
            body += d
        at = r.randint(0, len(body))
        body[2:2] = stmts(r.choice([0, 1, 1, 2, 3]), i, 1, False) if r.random() < 0.4 else []
        body += stmts(r.choice([0, 1, 1, 2, 3]), i, 1, False)
        body.append('print "end %s";' % p)
        out += body
    return '\n'.join(out) + '\n'


LABS['scripts'] = scripts


def reopen(r):
    """classes and modules that are defined again, superclasses and constants looked up where they're written"""
    names = ['A', 'B', 'C', 'M', 'N']
    out, cnt = [], itertools.count(1)

    def members(d):
        l = []
        for _ in range(r.randint(0, 2)):
            l.append(r.choice(['m%d() { return %s; }' % (r.randint(0, 1), r.choice(['"i%d"' % next(cnt), r.choice(names), 'K%d' % r.randint(0, 1), 'this.class'])),
                               'class s%d() { return %s; }' % (r.randint(0, 1), r.choice(['"s%d"' % next(cnt), r.choice(names), 'K%d' % r.randint(0, 1)])),
                               'K%d = %d;' % (r.randint(0, 1), next(cnt))]))
        return l + (define(d - 1) if d > 0 and r.random() < 0.6 else [])

    def define(d):
        n = r.choice(names)
        sup = r.choice(['', '', '', ' < ' + r.choice(names), ' < ' + r.choice(names), ' < K0', ' < Nope', ' < Error'])
        l = ['try {', ('module %s {' % n) if r.random() < 0.3 else ('class %s%s {' % (n, sup))] + members(d) + ['}', '} catch (Error e) {', 'print [e.class, e.message];', '}']
        return l

    def use():
        n = r.choice(names + ['%s::%s' % (r.choice(names), r.choice(names))])
        return ['try {', r.choice(['print %s;' % n, 'print %s().m%d();' % (n, r.randint(0, 1)), 'print %s.s%d();' % (n, r.randint(0, 1)), 'print %s.ancestors();' % n, 'print %s::K%d;' % (n, r.randint(0, 1)),
                                   'throw %s();' % n, 'print %s().class;' % n]), '} catch (%s e) {' % r.choice(['Error', 'NameError', 'NameError'] + names + ['%s::%s' % (r.choice(names), r.choice(names))]),
                'print [e.class, e.message];', '} catch (Error e) {', 'print e.message;', '}']

    out.append('K0 = %d;' % next(cnt))
    for _ in range(r.randint(4, 9)):
        out += define(2) if r.random() < 0.6 else use()
    for _ in range(r.randint(2, 5)):
        out += use()
    return '\n'.join(out) + '\n'


LABS['reopen'] = reopen


# ------------------------------------------------------------------ files (P20)

def files(r):
    """histories of operations on a few files, by several handles of them"""
    names = r.sample(['a.txt', 'b.txt', 'c', 'a.b.c', 'dd/x', 'dd/y.lox'], r.randint(2, 4))
    odd = ['nofile', 'nodir/x', 'a.txt/x', 'dd', '/D/a.txt', './', 'dd/']
    out = ['var hs = [];', 'var big = ("0123456789" * %d + "\\n") * %d + "0123456789" * 12 + "end";' % ((20, 20) if r.random() < 0.35 else (2, 3)),
           'fun sh(s) { if (s.size > 60) { return [s.size, s.substr(0, 9), s.substr(s.size - 5, 5)]; } else { return s; } }']
    if any(n.startswith('dd') for n in names) and r.random() < 0.9:
        out.append('print Dir.mkdir("dd");')
    cnt = itertools.count(1)

    def name():
        k = r.random()
        return '"%s"' % (r.choice(names) if k < 0.8 else '/D/' + r.choice(names) if k < 0.86 else r.choice(odd[:5]))

    def text():
        k = r.random()
        n = next(cnt)
        return '"t%d"' % n if k < 0.25 else '"l%d\\nm%d\\n"' % (n, n) if k < 0.45 else '"%d\\n\\nq"' % n if k < 0.55 else '""' if k < 0.6 else '"\\n"' if k < 0.65 else 'big' if k < 0.75 else 'big + "%d" + big' % n if k < 0.82 \
            else '"w" * %d' % r.randint(2, 20) if k < 0.9 else r.choice(['7', 'nil', '["x"]', ':sym' if False else 'hs'])

    def num():
        return r.choice(['1', '2', '3', '5', '0', '4', '10', '100', '4091', '4092', '5000', '-1', '"n"', 'nil'] if r.random() < 0.3 else ['1', '2', '3', '4', '7'])

    def flags():
        acc = r.choice(['O_RDONLY', 'O_RDWR', 'O_WRONLY', 'O_RDWR'])
        fl = [acc] + [f for f in ('O_CREAT', 'O_EXCL', 'O_TRUNC', 'O_APPEND') if r.random() < (0.3 if f != 'O_TRUNC' or acc != 'O_RDONLY' else 0)]
        return ' + '.join('File::' + f for f in fl)

    def guarded(s):
        return 'try { %s } catch (%s e) { print [e.class, e.message]; }' % (s, r.choice(['Error'] * 6 + ['SystemError', 'ArgumentError']) if s.count('catch') == 0 and r.random() < 0.0 else 'Error')

    def opener():
        k = r.random()
        return 'File.open(%s, %s)' % (name(), flags()) if k < 0.45 else 'File.open(%s)' % name() if k < 0.65 else 'File.create(%s)' % name() if k < 0.85 else 'File(%s)' % name()

    live = 0
    for n in names[:r.randint(1, len(names))]:
        out.append(guarded('hs.push(File.create("%s"));' % n))
        live += 1
    out.append(guarded('print hs[0].write(%s);' % text()))
    for _ in range(r.randint(14, 40)):
        k = r.random()
        h = 'hs[%d]' % r.randint(0, max(0, live - 1)) if r.random() < 0.97 else '7' if r.random() < 0.1 else 'hs[0]'
        g = 'hs[%d]' % r.randint(0, max(0, live - 1))
        if k < 0.16:
            out.append(guarded('hs.push(%s);' % opener()))
            live += 1
        elif k < 0.36:
            out.append(guarded('print %s.%s(%s);' % (h, r.choice(['write', 'write', 'puts', 'print']), text()) if r.random() < 0.8 else 'print IO.write(%s, %s);' % (h, text())).replace('print print', 'print') if r.random() < 0.85 else
                       guarded('print %s.write(%s); print %s.write(%s);' % (h, text(), g, text())))
        elif k < 0.58:
            out.append(guarded('print sh(%s);' % r.choice(['%s.read()' % h, '%s.read(%s)' % (h, num()), '%s.getline()' % h, '%s.getline(%s)' % (h, num()), '%s.getchar()' % h, 'IO.read(%s)' % h, 'IO.read(%s, %s)' % (h, num()), '%s.getline() + %s.getline()' % (h, h)])))
        elif k < 0.7:
            out.append(guarded('print %s;' % r.choice(['%s.rewind()' % h, '%s.seek(%s, File::SEEK_SET)' % (h, r.choice(['0', '1', '2', '3', '-1', 'nil'])), '%s.seek(-%d, File::SEEK_END)' % (h, r.randint(1, 4)), '%s.seek(0, File::SEEK_END)' % h, '%s.seek(0, File::SEEK_CUR)' % h,
                                                        '%s.seek(-%d, File::SEEK_CUR)' % (h, r.randint(1, 3)), '%s.seek(0, %s)' % (h, r.choice(['7', '-1', '"w"']))])))
        elif k < 0.77:
            out.append(guarded('print %s;' % r.choice(['%s.close()' % h, '%s.close()' % h, 'IO.close(%s)' % h, '%s.fd()' % h, '%s.path()' % h, '%s.isReg()' % h, '%s.isSymlink()' % h, '%s.stat().size' % h, '%s.stat().isReg()' % h, '%s.class' % h])))
        elif k < 0.81:
            out.append(guarded('print %s.unlink();' % h))
        elif k < 0.84:
            out.append(guarded('print %s.rename(%s);' % (h, name())))
        elif k < 0.87:
            out.append(guarded('print File.copy(%s, %s);' % ((h, 'File.open("cp%d", File::O_RDWR + File::O_CREAT)' % next(cnt)) if r.random() < 0.8 else ('File.open(%s, File::O_RDONLY)' % name(), 'hs[0]'))))
        elif k < 0.9:
            p = '"%s"' % r.choice(names + names + ['nofile', 'nodir/x', 'a.txt/x', '/D/a.txt'])
            out.append(guarded('print sh(File.read(%s)); print File.readLines(%s).map() -> (l) { sh(l); };' % (p, p)))
        elif k < 0.97:
            out.append(guarded('print %s;' % r.choice(['File.exists(%s)' % name(), 'File.isDir(%s)' % name(), 'File.stat(%s).size' % r.choice(['"%s"' % n for n in names] + ['"nofile"', '"a.txt/x"']), 'File.stat(%s).%s()' % (name(), r.choice(['isReg', 'isDir', 'isSymlink'])), 'Dir.glob("*").size', 'Dir.glob("%s*")' % r.choice(['dd/', 'a', 'zz', '/D/a']), 'Dir.mkdir(%s)' % r.choice(['"dd"', '"ee"', '"nodir/z"', name(), '"ee/ff"', '"a.txt/z"']),
                                                        'File.extension("%s")' % r.choice(names + odd[:2]), 'File.join(%s, %s)' % (name(), r.choice(['"z"', '"dd/", "e"', '"", "q"', name(), '7', '"q", nil'])), 'File.expandPath(%s)' % name(), 'File.exists(7)', 'File.read(nil)', 'File.open(3)', 'File.create([1])', 'Dir.mkdir(9)',
                                                        'File.open(%s, "r")' % name(), 'File.copy(%s, 3)' % h])))
        elif k < 0.985:
            v = 'p%d' % next(cnt)
            l = ['var %s = IO.pipe();' % v]
            avail = ''
            for _ in range(r.randint(3, 9)):
                x = r.random()
                if x < 0.5:
                    w = r.choice(['ab', 'l\\n', 'one\\ntwo\\n', '\\n', 'xyz', ''])
                    how = r.choice(['write', 'puts', 'print'])
                    l.append('print %s[1].%s("%s");' % (v, how, w))
                    avail += w.replace('\\n', '\n') + ('\n' if how == 'puts' else '')
                elif x < 0.9 and avail:
                    if '\n' in avail and r.random() < 0.4:
                        l.append('print %s[0].getline();' % v)
                        avail = avail[avail.index('\n') + 1:]
                    elif r.random() < 0.3:
                        l.append('print %s[0].getchar();' % v)
                        avail = avail[1:]
                    else:
                        n = r.randint(1, len(avail))
                        l.append('print %s[0].read(%d);' % (v, n))
                        avail = avail[n:]
                else:
                    l.append(guarded('print %s;' % r.choice(['%s[0].write("n")' % v, '%s[1].read(2)' % v, '%s[0].puts("n")' % v, '%s[1].getline()' % v])))
            l += ['print %s[1].close();' % v, guarded('print %s[1].write("late");' % v), 'print %s[0].read();' % v, 'print %s[0].read(3);' % v, guarded('print %s[0].getline();' % v), '%s[0].close();' % v, guarded('print %s[0].read();' % v)]
            out += l
        else:
            out += ['class LogF < File {', 'init(p) { super.init(p); this.n = 0; }', 'log(s) { this.n = this.n + 1; return this.write(s); }', '}'] if 'class LogF < File {' not in out else []
            out.append(guarded('hs.push(LogF(%s)); print hs[hs.size - 1].log("lg"); print hs[hs.size - 1].n;' % name()))
            live += 1
    for n in names + ['a.txt']:
        out.append(guarded('print sh(File.read("%s"));' % n))
    out.append(guarded('print Dir.glob("*");') if 'dd' in str(out) else 'print Dir.glob("*").size;')
    return '\n'.join(out) + '\n'


LABS['files'] = files
