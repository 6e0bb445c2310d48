"""Lox programs as the JSON node lists that spec/Lox.tla runs, and their source text."""

PREC = {'or': 1, 'and': 2, '==': 3, '!=': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, '+': 5, '-': 5,
        '|': 6, '&': 6, '^': 6, '<<': 6, '>>': 6, '*': 7, '/': 7, '%': 7}


class Ast:
    def __init__(self):
        self.nodes = []

    def add(self, t, **kw):
        kw['t'] = t
        self.nodes.append(kw)
        return len(self.nodes)

    def n(self, i):
        return self.nodes[i - 1]

    # expressions
    def num(self, p, q=1):
        return self.add('num', p=p, q=q)

    def str(self, s):
        return self.add('str', s=s)

    def nil(self):
        return self.add('nil')

    def bool(self, b):
        return self.add('bool', b=bool(b))

    def var(self, n):
        return self.add('var', n=n)

    def const(self, n):
        return self.add('const', n=n)

    def cget(self, e, n):
        return self.add('cget', e=e, n=n)

    def asg(self, n, e, op=''):
        # op: written as `n op= rhs`; e is then the node of `n op rhs`
        return self.add('asg', n=n, e=e, aop=op)

    def bin(self, op, a, b):
        if op in ('and', 'or'):
            return self.add(op, a=a, b=b)
        return self.add('bin', op=op, a=a, b=b)

    def neg(self, e):
        return self.add('neg', e=e)

    def lnot(self, e):
        return self.add('not', e=e)

    def interp(self, l):
        return self.add('interp', l=l)

    def arr(self, l):
        return self.add('arr', l=l)

    def map(self, l):
        return self.add('map', l=l)

    def idx(self, a, b):
        return self.add('idx', a=a, b=b)

    def idxset(self, a, b, c):
        return self.add('idxset', a=a, b=b, c=c)

    def get(self, a, n):
        return self.add('get', a=a, n=n)

    def set(self, a, n, e):
        return self.add('set', a=a, n=n, e=e)

    def call(self, f, l=(), sp=None, kw=(), ba=0, blk=0):
        l = list(l)
        return self.add('call', f=f, l=l, sp=sp or [0] * len(l), kn=[k for k, _ in kw], kl=[v for _, v in kw], ba=ba, blk=blk)

    def inv(self, a, n, l=(), sp=None, kw=(), ba=0, blk=0):
        l = list(l)
        return self.add('inv', a=a, n=n, l=l, sp=sp or [0] * len(l), kn=[k for k, _ in kw], kl=[v for _, v in kw], ba=ba, blk=blk)

    def sup(self, n, l=(), sp=None, kw=(), ba=0, blk=0):
        l = list(l)
        return self.add('sup', n=n, l=l, sp=sp or [0] * len(l), kn=[k for k, _ in kw], kl=[v for _, v in kw], ba=ba, blk=blk)

    def this(self):
        return self.add('this')

    def fun(self, req=(), opt=(), rest='', kw=(), bp='', body=(), nm='', an=None):
        return self.add('fun', req=list(req), optn=[n for n, _ in opt], opte=[e for _, e in opt], rest=rest,
                        kwn=[n for n, _ in kw], kwe=[e for _, e in kw], bp=bp, body=list(body),
                        nm=nm or '(Anon)', an=an or nm or '(anon)')

    # statements
    def expr(self, e):
        return self.add('expr', e=e)

    def print(self, e):
        return self.add('print', e=e)

    def vard(self, n, e=0, gl=False):
        return self.add('vard', n=n, e=e, gl=gl)

    def mvar(self, ns, e, gl=False):
        return self.add('mvar', ns=list(ns), e=e, gl=gl)

    def casg(self, n, e):
        return self.add('casg', n=n, e=e)

    def block(self, l):
        return self.add('block', l=list(l))

    def iff(self, c, a, b=0):
        return self.add('if', c=c, a=a, b=b)

    def whil(self, c, b):
        return self.add('while', c=c, b=b)

    def forr(self, i, c, s, b):
        return self.add('for', i=i, c=c, s=s, b=b)

    def foreach(self, ns, e, b):
        return self.add('foreach', ns=list(ns), e=e, b=b)

    def brk(self):
        return self.add('brk')

    def cont(self):
        return self.add('cont')

    def ret(self, e=0):
        return self.add('ret', e=e)

    def throw(self, e):
        return self.add('throw', e=e)

    def tryy(self, b, cs=(), el=0, en=0):
        return self.add('try', b=b, cs=[list(c) for c in cs], el=el, en=en)

    def fdef(self, n, f, gl=False):
        return self.add('fdef', n=n, f=f, gl=gl)

    def meth(self, kd, n, f):
        return self.add('meth', kd=kd, n=n, f=f)

    def klass(self, n, sup, l):
        return self.add('class', n=n, sup=sup, l=list(l))

    def module(self, n, l):
        return self.add('module', n=n, l=list(l))

    def top(self, l):
        return self.add('top', l=list(l))


def numtext(p, q):
    if q == 1:
        return str(p)
    s = '-' if p < 0 else ''
    p = abs(p)
    return s + ('%d.%03d' % (p // q, (p % q) * 1000 // q)).rstrip('0')


class Render:
    """Source text; parentheses only where the grammar needs them (and, with rnd, redundant ones)."""

    def __init__(self, ast, rnd=None):
        self.a = ast
        self.rnd = rnd

    def paren(self, s, need):
        if need or (self.rnd and self.rnd.random() < 0.08):
            return '(' + s + ')'
        return s

    def args(self, n):
        out = [('*' if sp else '') + self.e(i, 0 if not sp else 9) for i, sp in zip(n['l'], n['sp'])]
        out += ['%s: %s' % (k, self.e(i)) for k, i in zip(n['kn'], n['kl'])]
        if n['ba']:
            out.append('&' + self.e(n['ba'], 9))
        s = '(' + ', '.join(out) + ')'
        if n['blk']:
            f = self.a.n(n['blk'])
            s += ' -> ' + self.params(f) + ' {\n' + self.body(f['body']) + '}\n'
        return s

    def params(self, f):
        ps = list(f['req']) + ['%s = %s' % (n, self.e(e)) for n, e in zip(f['optn'], f['opte'])]
        if f['rest']:
            ps.append('*' + f['rest'])
        ps += ['%s: %s' % (n, self.e(e)) for n, e in zip(f['kwn'], f['kwe'])]
        if f['bp']:
            ps.append('&' + f['bp'])
        return '(' + ', '.join(ps) + ')'

    def e(self, i, prec=0):
        n = self.a.n(i)
        t = n['t']
        if t == 'num':
            s = numtext(n['p'], n['q'])
            return self.paren(s, s[0] == '-' and prec > 7)
        if t == 'str':
            return '"' + n['s'].replace('\\', '\\\\').replace('"', '\\"') + '"'
        if t == 'nil':
            return 'nil'
        if t == 'bool':
            return 'true' if n['b'] else 'false'
        if t in ('var', 'const'):
            return n['n']
        if t == 'this':
            return 'this'
        if t == 'cget':
            return self.e(n['e'], 9) + '::' + n['n']
        if t == 'asg':
            if n['aop']:
                s = '%s %s= %s' % (n['n'], n['aop'], self.e(self.a.n(n['e'])['b'], 0))
            else:
                s = '%s = %s' % (n['n'], self.e(n['e'], 0))
            return self.paren(s, prec > 0)
        if t in ('bin', 'and', 'or'):
            op = n['op'] if t == 'bin' else t
            p = PREC[op]
            return self.paren('%s %s %s' % (self.e(n['a'], p), op, self.e(n['b'], p + 1)), prec > p)
        if t == 'neg':
            return self.paren('-' + self.e(n['e'], 9), prec > 8)
        if t == 'not':
            return self.paren('!' + self.e(n['e'], 8), prec > 8)
        if t == 'interp':
            s = ''
            for j in n['l']:
                m = self.a.n(j)
                s += m['s'] if m['t'] == 'str' else '${' + self.e(j) + '}'
            return '"' + s + '"'
        if t == 'arr':
            return '[' + ', '.join(self.e(j) for j in n['l']) + ']'
        if t == 'map':
            l = n['l']
            return '%{' + ', '.join('%s: %s' % (self.e(l[j]), self.e(l[j + 1])) for j in range(0, len(l), 2)) + '}'
        if t == 'idx':
            return self.e(n['a'], 9) + '[' + self.e(n['b']) + ']'
        if t == 'idxset':
            return self.paren(self.e(n['a'], 9) + '[' + self.e(n['b']) + '] = ' + self.e(n['c'], 0), prec > 0)
        if t == 'get':
            return self.e(n['a'], 9) + '.' + n['n']
        if t == 'set':
            return self.paren(self.e(n['a'], 9) + '.' + n['n'] + ' = ' + self.e(n['e'], 0), prec > 0)
        if t == 'call':
            return self.e(n['f'], 9) + self.args(n)
        if t == 'inv':
            return self.e(n['a'], 9) + '.' + n['n'] + self.args(n)
        if t == 'sup':
            return 'super' + ('.' + n['n'] if n['n'] else '') + self.args(n)
        if t == 'fun':
            return self.paren('fun' + self.params(n) + ' {\n' + self.body(n['body']) + '}', prec > 0)
        raise ValueError(t)

    def body(self, l):
        return ''.join(self.s(i) + '\n' for i in l)

    def blk(self, i):
        return '{\n' + self.body(self.a.n(i)['l']) + '}'

    def s(self, i):
        n = self.a.n(i)
        t = n['t']
        if t == 'expr':
            return self.e(n['e']) + ';'
        if t == 'print':
            return 'print ' + self.e(n['e']) + ';'
        if t == 'vard':
            return 'var ' + n['n'] + (' = ' + self.e(n['e']) if n['e'] else '') + ';'
        if t == 'mvar':
            return 'var ' + ', '.join(n['ns']) + ' = ' + self.e(n['e']) + ';'
        if t == 'casg':
            # `K = (` begins a setter in class bodies
            return n['n'] + ' = ' + self.e(n['e']).lstrip('(').rstrip(')') + ';'
        if t == 'if':
            s = 'if (' + self.e(n['c']) + ') ' + self.blk(n['a'])
            if n['b']:
                m = self.a.n(n['b'])
                s += ' else ' + (self.s(n['b']) if m['t'] == 'if' else self.blk(n['b']))
            return s
        if t == 'while':
            return 'while (' + self.e(n['c']) + ') ' + self.blk(n['b'])
        if t == 'for':
            return 'for (' + self.s(n['i']) + ' ' + self.e(n['c']) + '; ' + self.e(n['s']) + ') ' + self.blk(n['b'])
        if t == 'foreach':
            return 'foreach (' + ', '.join(n['ns']) + ' in ' + self.e(n['e']) + ') ' + self.blk(n['b'])
        if t == 'brk':
            return 'break;'
        if t == 'cont':
            return 'continue;'
        if t == 'ret':
            return 'return' + (' ' + self.e(n['e']) if n['e'] else '') + ';'
        if t == 'throw':
            return 'throw ' + self.e(n['e']) + ';'
        if t == 'try':
            s = 'try ' + self.blk(n['b'])
            for c, v, b in n['cs']:
                s += ' catch (' + self.e(c) + (' ' + v if v else '') + ') ' + self.blk(b)
            if n['el']:
                s += ' else ' + self.blk(n['el'])
            if n['en']:
                s += ' ensure ' + self.blk(n['en'])
            return s
        if t == 'fdef':
            f = self.a.n(n['f'])
            return 'fun ' + n['n'] + self.params(f) + ' {\n' + self.body(f['body']) + '}'
        if t == 'class':
            return 'class ' + n['n'] + (' < ' + self.e(n['sup'], 9) if n['sup'] else '') + ' {\n' + self.body(n['l']) + '}'
        if t == 'module':
            return 'module ' + n['n'] + ' {\n' + self.body(n['l']) + '}'
        if t == 'meth':
            f = self.a.n(n['f'])
            b = ' {\n' + self.body(f['body']) + '}'
            return {'me': n['n'] + self.params(f), 'ge': n['n'], 'se': n['n'] + '=' + self.params(f),
                    'st': 'class ' + n['n'] + self.params(f)}[n['kd']] + b
        if t == 'top':
            return self.body(n['l'])
        if t == 'block':
            return self.blk(i)
        raise ValueError(t)


def program(ast, root, pid, rnd=None):
    text = Render(ast, rnd).s(root)
    return {'id': pid, 'nodes': ast.nodes, 'root': root}, text
