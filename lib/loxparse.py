"""A parser for the part of Lox that spec/Lox.tla defines: source text -> node list (see loxast)."""
import re
from loxast import Ast, program

KW = {'and', 'or', 'class', 'module', 'else', 'false', 'fun', 'for', 'try', 'catch', 'throw', 'ensure', 'if', 'nil', 'print', 'return',
      'super', 'this', 'true', 'var', 'while', 'continue', 'break', 'in', 'foreach'}
TOK = re.compile(r'''(?P<ws>[ \t\r\n]+|//[^\n]*)|(?P<num>\d+(\.\d+)?)|(?P<id>[A-Za-z_]\w*)|(?P<str>"(\\.|[^"\\])*"|'(\\.|[^'\\])*')
 |(?P<op>->|::|==|!=|<=|>=|<<=|>>=|<<|>>|\+=|-=|\*=|/=|%=|\|=|\^=|&=|%\{|[-+*/%<>=!&|^.,;:(){}\[\]])''', re.X)


class Unsupported(Exception):
    pass


def lex(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Unsupported('character %r' % src[i:i + 10])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group(k)
        if k == 'id' and t in KW:
            k = 'kw'
        if k == 'id' and t == '__END__':
            break
        out.append((k, t))
    out.append(('eof', ''))
    return out


BINL = [('or',), ('and',), ('==', '!='), ('<', '<=', '>', '>='), ('+', '-'), ('|', '&', '^', '<<', '>>'), ('*', '/', '%')]


class Parser:
    def __init__(self, src, ast=None):
        self.t, self.i, self.a = lex(src), 0, ast or Ast()
        self.depth = 0       # 0: top level of the script, declarations are global
        self.cls = []        # names of enclosing classes

    # tokens
    def p(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def at(self, *ops):
        k, t = self.p()
        return k in ('op', 'kw') and t in ops

    def take(self, *ops):
        if self.at(*ops):
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def need(self, op):
        if not self.take(op):
            raise Unsupported('expected %s at %r' % (op, self.t[self.i:self.i + 6]))

    def ident(self):
        k, t = self.p()
        if k != 'id':
            raise Unsupported('expected name at %r' % (self.t[self.i:self.i + 6],))
        self.i += 1
        return t

    # expressions
    def expr(self):
        a = self.a
        start = self.i
        lhs = self.binary(0)
        n = a.n(lhs)
        op = self.p()[1] if self.p()[0] == 'op' else ''
        if op == '=':
            self.i += 1
            rhs = self.expr()
            if n['t'] == 'var':
                return a.asg(n['n'], rhs)
            if n['t'] == 'get':
                return a.set(n['a'], n['n'], rhs)
            if n['t'] == 'idx':
                return a.idxset(n['a'], n['b'], rhs)
            if n['t'] == 'const':
                return a.casg(n['n'], rhs)
            raise Unsupported('assignment to ' + n['t'])
        if op in ('+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='):
            self.i += 1
            rhs = self.expr()
            if n['t'] == 'var':
                return a.asg(n['n'], a.bin(op[:-1], lhs, rhs), op[:-1])
            if n['t'] == 'get':
                return a.set(n['a'], n['n'], a.bin(op[:-1], lhs, rhs))
            raise Unsupported('op=')
        return lhs

    def binary(self, l):
        if l == len(BINL):
            return self.unary()
        x = self.binary(l + 1)
        while self.at(*BINL[l]):
            op = self.take(*BINL[l])
            x = self.a.bin(op, x, self.binary(l + 1))
        return x

    def unary(self):
        if self.take('-'):
            x = self.unary()
            n = self.a.n(x)
            return self.a.neg(x)
        if self.take('!'):
            return self.a.lnot(self.unary())
        return self.call()

    def args(self):
        """after the opening parenthesis: l, sp, kw, ba"""
        l, sp, kw, ba = [], [], [], 0
        if not self.take(')'):
            while True:
                if self.take('*'):
                    l.append(self.unary())
                    sp.append(1)
                elif self.take('&'):
                    ba = self.unary()
                elif self.p()[0] == 'id' and self.p(1) == ('op', ':'):
                    k = self.ident()
                    self.i += 1
                    kw.append((k, self.expr()))
                else:
                    l.append(self.expr())
                    sp.append(0)
                if not self.take(','):
                    break
            self.need(')')
        return dict(l=l, sp=sp, kw=kw, ba=ba)

    def blocklit(self):
        if not self.take('->'):
            return 0
        ps = self.params() if self.take('(') else dict(req=[], opt=[], rest='', kw=[], bp='')
        return self.a.fun(body=self.fbody(), **ps)

    def call(self):
        a = self.a
        x = self.primary()
        while True:
            if self.take('('):
                k = self.args()
                n = a.n(x)
                x = a.call(x, blk=self.blocklit(), **k)
            elif self.take('['):
                e = self.expr()
                self.need(']')
                x = a.idx(x, e)
            elif self.take('.'):
                k, nm = self.p()
                if k not in ('id', 'kw'):
                    raise Unsupported('property')
                self.i += 1
                if self.take('('):
                    k = self.args()
                    x = a.inv(x, nm, blk=self.blocklit(), **k)
                elif self.at('->'):
                    x = a.inv(x, nm, blk=self.blocklit())
                else:
                    x = a.get(x, nm)
            elif self.take('::'):
                x = a.cget(x, self.ident())
            else:
                return x

    def string(self, t):
        a = self.a
        q, s = t[0], t[1:-1]
        if q == "'":
            return a.str(s.replace("\\'", "'"))
        parts, i, cur = [], 0, ''
        while i < len(s):
            c = s[i]
            if c == '\\' and i + 1 < len(s):
                cur += {'n': '\n', 't': '\t', '"': '"', '\\': '\\'}.get(s[i + 1], '\\' + s[i + 1])
                i += 2
            elif s.startswith('${', i):
                j = s.index('}', i)
                if cur:
                    parts.append(a.str(cur))
                cur = ''
                sub = Parser(s[i + 2:j], a)
                sub.depth, sub.cls = 1, self.cls
                parts.append(sub.expr())
                if sub.p()[0] != 'eof':
                    raise Unsupported('interpolation')
                i = j + 1
            else:
                cur += c
                i += 1
        if not parts:
            return a.str(cur)
        if cur:
            parts.append(a.str(cur))
        return a.interp(parts)

    def primary(self):
        a = self.a
        k, t = self.p()
        self.i += 1
        if k == 'num':
            if '.' in t:
                w, f = t.split('.')
                return a.num(int(w + f), 10 ** len(f)) if int(f) else a.num(int(w))
            return a.num(int(t))
        if k == 'str':
            return self.string(t)
        if k == 'id':
            return a.const(t) if t[0].isupper() else a.var(t)
        if t == 'nil':
            return a.nil()
        if t in ('true', 'false'):
            return a.bool(t == 'true')
        if t == 'this':
            return a.this()
        if t == '(':
            e = self.expr()
            self.need(')')
            return e
        if t == '[':
            l = []
            if not self.take(']'):
                while True:
                    l.append(self.expr())
                    if not self.take(','):
                        break
                self.need(']')
            return a.arr(l)
        if t == '%{':
            l = []
            if not self.take('}'):
                while True:
                    l.append(self.expr())
                    self.need(':')
                    l.append(self.expr())
                    if not self.take(','):
                        break
                self.need('}')
            return a.map(l)
        if t == 'fun':
            self.need('(')
            ps = self.params()
            return a.fun(body=self.fbody(), **ps)
        if t == 'super' and self.take('.'):
            nm = self.ident()
            self.need('(')
            k = self.args()
            return a.sup(nm, blk=self.blocklit(), **k)
        raise Unsupported('token %r' % t)

    # functions
    def params(self):
        """after the opening parenthesis"""
        r = dict(req=[], opt=[], rest='', kw=[], bp='')
        if not self.take(')'):
            while True:
                if self.take('*'):
                    r['rest'] = self.ident()
                elif self.take('&'):
                    r['bp'] = self.ident()
                else:
                    n = self.ident()
                    if self.take('='):
                        r['opt'].append((n, self.expr()))
                    elif self.take(':'):
                        r['kw'].append((n, self.expr()))
                    else:
                        r['req'].append(n)
                if not self.take(','):
                    break
            self.need(')')
        return r

    def fbody(self):
        self.depth += 1
        l = self.stmts()
        self.depth -= 1
        return l

    def stmts(self):
        self.need('{')
        l = []
        while not self.take('}'):
            l += self.stmt()
        return l

    def blk(self):
        self.depth += 1
        b = self.a.block(self.stmts())
        self.depth -= 1
        return b

    # statements
    def vardecl(self):
        a = self.a
        ns = [self.ident()]
        while self.take(','):
            ns.append(self.ident())
        e = self.expr() if self.take('=') else 0
        self.need(';')
        gl = self.depth == 0
        if len(ns) == 1:
            return a.vard(ns[0], e, gl)
        if not e:
            raise Unsupported('var a, b;')
        return a.mvar(ns, e, gl)

    def stmt(self):
        a = self.a
        if self.take(';'):
            return []
        k, t = self.p()
        if k == 'op' and t == '{':
            return [self.blk()]
        if k == 'kw':
            if t == 'fun' and self.p(1)[0] == 'id':
                self.i += 1
                n = self.ident()
                self.need('(')
                gl = self.depth == 0
                ps = self.params()
                return [a.fdef(n, a.fun(body=self.fbody(), nm=n, **ps), gl)]
            if t in ('class', 'module'):
                self.i += 1
                return [self.classdef(t)]
            if t in ('print', 'throw'):
                self.i += 1
                e = self.expr()
                self.need(';')
                return [a.print(e) if t == 'print' else a.throw(e)]
            if t == 'var':
                self.i += 1
                return [self.vardecl()]
            if t == 'return':
                self.i += 1
                e = 0 if self.at(';') else self.expr()
                self.need(';')
                return [a.ret(e)]
            if t in ('break', 'continue'):
                self.i += 1
                self.need(';')
                return [a.brk() if t == 'break' else a.cont()]
            if t == 'if':
                self.i += 1
                self.need('(')
                c = self.expr()
                self.need(')')
                b = self.blk()
                e = 0
                if self.take('else'):
                    e = self.stmt()[0] if self.at('if') else self.blk()
                return [a.iff(c, b, e)]
            if t == 'while':
                self.i += 1
                self.need('(')
                c = self.expr()
                self.need(')')
                return [a.whil(c, self.blk())]
            if t == 'for':
                self.i += 1
                self.need('(')
                self.depth += 1
                if self.take(';'):
                    raise Unsupported('for without initialization')
                i = self.stmt()[0]
                c = self.expr()
                self.need(';')
                s = self.expr()
                self.need(')')
                b = self.blk()
                self.depth -= 1
                return [a.forr(i, c, s, b)]
            if t == 'foreach':
                self.i += 1
                self.need('(')
                ns = [self.ident()]
                while self.take(','):
                    ns.append(self.ident())
                self.need('in')
                e = self.expr()
                self.need(')')
                return [a.foreach(ns, e, self.blk())]
            if t == 'try':
                self.i += 1
                b = self.blk()
                cs, el, en = [], 0, 0
                while self.take('catch'):
                    self.need('(')
                    c = self.call()
                    v = self.ident() if self.p()[0] == 'id' else ''
                    self.need(')')
                    cs.append([c, v, self.blk()])
                if self.take('else'):
                    el = self.blk()
                if self.take('ensure'):
                    en = self.blk()
                return [a.tryy(b, cs, el, en)]
        e = self.expr()
        self.need(';')
        return [e if a.n(e)['t'] == 'casg' else a.expr(e)]

    def classdef(self, t):
        a = self.a
        n = self.ident()
        sup = self.call() if t == 'class' and self.take('<') else 0
        self.need('{')
        self.cls.append(n)
        self.depth += 1
        l = []
        while not self.take('}'):
            k, x = self.p()
            if k == 'kw' and x in ('class', 'module') and self.p(1)[0] == 'id' and self.p(2) != ('op', '('):
                self.i += 1
                l.append(self.classdef(x))
                continue
            if k == 'kw' and x == 'class' and self.p(2) == ('op', '('):
                self.i += 2
                m = self.t[self.i - 1][1]
                self.need('(')
                ps = self.params()
                l.append(a.meth('st', m, a.fun(body=self.fbody(), nm=m, an=n + '.' + m, **ps)))
                continue
            if k == 'id':
                nx = self.p(1)
                if nx == ('op', '{'):
                    self.i += 1
                    l.append(a.meth('ge', x, a.fun(body=self.fbody(), nm=x, an=n + '#' + x)))
                    continue
                if nx == ('op', '=') and self.p(2) == ('op', '('):
                    self.i += 3
                    ps = self.params()
                    l.append(a.meth('se', x, a.fun(body=self.fbody(), nm=x, an=n + '#' + x, **ps)))
                    continue
                if nx == ('op', '('):
                    j, d = self.i + 1, 0
                    while True:
                        d += {'(': 1, ')': -1}.get(self.t[j][1], 0) if self.t[j][0] == 'op' else 0
                        j += 1
                        if d == 0:
                            break
                    if self.t[j] == ('op', '{'):
                        self.i += 2
                        ps = self.params()
                        l.append(a.meth('me', x, a.fun(body=self.fbody(), nm=x, an=n + '#' + x, **ps)))
                        continue
            l += self.stmt()
        self.depth -= 1
        self.cls.pop()
        return a.klass(n, sup, l) if t == 'class' else a.module(n, l)

    def top(self):
        l = []
        while self.p()[0] != 'eof':
            l += self.stmt()
        return self.a.top(l)


def parse(text, pid=0):
    parts, dirs = (), []
    if '//@' in text:
        from loxrun import split
        text, parts, dirs = split(text)
    p = Parser(text)
    root = p.top()
    files = []
    for n, x, ok in parts:
        if ok:
            q = Parser(x)
            q.a = p.a
            files.append([n, q.top(), ''])
        else:
            files.append([n, 0, x])
    r = {'id': pid, 'nodes': p.a.nodes, 'root': root}
    if parts:
        r.update(files=files, dirs=dirs)
    return r
