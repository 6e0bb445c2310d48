"""Random Lox programs (seeded), as ASTs for spec/Lox.tla and as source text.

A profile selects which parts of the language dominate; every program is closed, terminates, and prints
what it computes.  Types are tracked so that most operations succeed; a share of expressions is ill-typed
on purpose (inside try statements, or at the end of the program)."""
import random
import loxlabs, loxparse
from loxast import Ast, program

WORDS = ['a', 'b', 'ab', 'foo', 'bar', 'x y', 'Zed', 'q', '', 'hello', ' pad ', 'a,b,c', 'aab']

PROFILES = {
    # weights of statement kinds and expression forms
    'expr':    dict(stmts=dict(printe=10, var=4, asg=4, iff=1, tryerr=3), err=0.15, depth=4),
    'scope':   dict(stmts=dict(printe=5, var=5, asg=5, iff=2, forr=2, whil=1, foreach=2, fdef=3, closure=6, callf=4, ccall=6, tryc=1), err=0.02, depth=2),
    'loop':    dict(stmts=dict(printe=5, var=2, asg=4, iff=4, forr=5, whil=4, foreach=4, jump=5, fdef=1, callf=1, tryc=1, closure=1, ccall=1), err=0.02, depth=2),
    'exc':     dict(stmts=dict(printe=4, var=2, asg=2, iff=2, forr=2, foreach=1, whil=1, tryc=8, throw=3, jump=1, fdef=3, callf=4, tryerr=3, eclass=1, blockcall=1), err=0.12, depth=2),
    'block':   dict(stmts=dict(printe=4, var=2, asg=2, iff=1, foreach=1, yfun=4, blockcall=9, tryc=1, fdef=1, callf=1, arrblock=6, forr=1), err=0.04, depth=2),
    'args':    dict(stmts=dict(printe=3, var=2, pfun=4, pcall=10, tryerr=2), err=0.05, depth=2),
    'oo':      dict(stmts=dict(printe=4, var=2, asg=2, klass=4, module=2, newobj=5, ocall=10, oset=4, iff=1, tryerr=2, reopen=1, foreach=1, oreflect=3), err=0.05, depth=2),
    'array':   dict(stmts=dict(printe=3, avar=3, amut=10, aread=8, arrblock=3, tryerr=1, foreach=2, iff=1, freeze=1), err=0.05, depth=2),
    'map':     dict(stmts=dict(printe=3, mapvar=3, mmut=10, mread=8, tryerr=1, foreach=1, iff=1, freeze=1), err=0.05, depth=2),
    'string':  dict(stmts=dict(printe=3, svar=4, smut=8, sread=10, tryerr=2, iff=1, freeze=1), err=0.06, depth=2),
    'mix':     dict(stmts=dict(printe=4, var=3, asg=3, iff=2, forr=2, whil=1, foreach=2, jump=2, fdef=2, callf=2, closure=2, ccall=2, tryc=2, throw=1,
                               yfun=1, blockcall=2, arrblock=1, pfun=1, pcall=1, klass=1, newobj=2, ocall=2, oset=1, avar=1, amut=1, aread=1, mapvar=1, mmut=1,
                               mread=1, svar=1, smut=1, sread=1, tryerr=1), err=0.04, depth=2),
    'iter':    dict(stmts=dict(printe=3, var=2, foreach=8, iterclass=3, iterloop=7, forr=2, jump=3, arrblock=4, iff=2, fdef=1, callf=1), err=0.03, depth=2),
    'freeze':  dict(stmts=dict(printe=2, avar=3, mapvar=3, svar=3, klass=1, newobj=3, freeze=8, amut=4, mmut=4, smut=4, oset=4, dup=6, aread=2, mread=2, sread=2, iff=1), err=0.03, depth=2),
    'const':   dict(stmts=dict(printe=3, constdef=5, constuse=7, klass=3, module=2, newobj=2, ocall=3, reopen=2, fdef=1, callf=1, tryerr=1, oreflect=3), err=0.05, depth=2),
}


class Var:
    __slots__ = ('name', 'ty', 'mut', 'frozen', 'loop')

    def __init__(self, name, ty, mut=True):
        self.name, self.ty, self.mut = name, ty, mut
        self.loop = False


class Fn:
    def __init__(self, name, nreq, ret='num', **kw):
        self.name, self.nreq, self.ret = name, nreq, ret
        self.opt = kw.get('opt', 0)
        self.rest = kw.get('rest', False)
        self.kw = kw.get('kw', [])
        self.yields = kw.get('yields', 0)   # number of values given to the block
        self.level = kw.get('level', 0)


class Cls:
    def __init__(self, name, sup, module=False):
        self.name, self.sup, self.module = name, sup, module
        self.meths = {}    # name -> (nparams, ret)
        self.getters = []
        self.setters = []
        self.statics = {}
        self.fields = ['v']
        self.consts = []
        self.mods = []
        self.ninit = 1
        self.ops = set()
        self.missing = False

    def chain(self):
        out = [self] + list(reversed(self.mods))
        if self.sup:
            out += self.sup.chain()
        return out

    def all_meths(self):
        d = {}
        for c in reversed(self.chain()):
            d.update(c.meths)
        return d

    def all_ops(self):
        s = set()
        for c in self.chain():
            s |= c.ops
        return s

    def all_getters(self):
        return [g for c in self.chain() for g in c.getters]

    def all_setters(self):
        return [g for c in self.chain() for g in c.setters]

    def all_statics(self):
        d = {}
        c = self
        while c:
            for k, v in c.statics.items():
                d.setdefault(k, v)
            c = c.sup
        return d


class Gen:
    def __init__(self, seed, profile, size=18):
        self.r = random.Random(seed)
        self.a = Ast()
        self.pname = profile
        self.p = PROFILES[profile]
        self.size = size
        self.cnt = 0
        self.scopes = [[]]
        self.fns = []
        self.classes = []
        self.modules = []
        self.iters = []
        self.consts = []
        self.eclasses = ['Error', 'ArgumentError', 'TypeError', 'NameError']
        self.inloop = 0        # enclosing loops of the current function
        self.infun = None      # None, 'fun', 'block', 'meth'
        self.this = None       # class whose method is generated
        self.depth = 0         # nesting of statements
        self.level = 0         # functions may only call functions of a lower level
        self.yields = None     # in a function that yields: number of values
        self.noret = False
        self.loopwork = 1
        self.iterating = set()
        self.feats = set()
        self.noerr = False

    # --- helpers
    def fresh(self, pre):
        self.cnt += 1
        return '%s%d' % (pre, self.cnt)

    def pick(self, d):
        ks = list(d)
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def visible(self, ty=None, mut=False):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v.name in seen:
                    continue
                seen.add(v.name)
                if (ty is None or v.ty == ty) and (not mut or v.mut):
                    out.append(v)
        return out

    def declare(self, name, ty, mut=True):
        v = Var(name, ty, mut)
        self.scopes[-1].append(v)
        return v

    def isglobal(self):
        return len(self.scopes) == 1

    def varname(self):
        # shadow an outer variable sometimes
        if not self.isglobal() and self.r.random() < 0.25:
            here = {v.name for v in self.scopes[-1]}
            outer = [v.name for sc in self.scopes[:-1] for v in sc if v.name not in here and v.mut and not v.name.startswith('f')]
            if outer:
                return self.r.choice(outer)
        return self.fresh('v')

    # --- expressions
    def num_lit(self):
        r = self.r
        if r.random() < 0.15:
            return self.a.num(r.randint(-20, 40) * 2 + 1, r.choice([2, 4]))
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 31, 100]) if r.random() < 0.7 else r.randint(0, 300)
        if r.random() < 0.1 and n:
            return self.a.neg(self.a.num(n))
        return self.a.num(n)

    def pos_lit(self, hi=40):
        return self.a.num(self.r.randint(0, hi))

    def expr(self, ty, d):
        r = self.r
        if not self.noerr and r.random() < self.p['err'] * 0.35 and self.depth >= 0:
            ty = r.choice(['num', 'str', 'nil', 'arr', 'bool'])
        m = getattr(self, 'e_' + ty, None)
        if m is None:
            return self.e_special(ty, d)
        return m(d)

    def any_expr(self, d):
        return self.expr(self.pick(dict(num=6, str=3, bool=3, arr=2, nil=0.5)), d)

    def e_nil(self, d):
        vs = self.visible('nil')
        if vs and self.r.random() < 0.5:
            return self.a.var(self.r.choice(vs).name)
        return self.a.nil()

    def leaf_var(self, ty):
        vs = self.visible(ty)
        if vs:
            # prefer recent ones
            return self.a.var(self.r.choice(vs[:8]).name)
        return None

    def e_num(self, d):
        r, a = self.r, self.a
        if d <= 0 or r.random() < 0.25:
            v = self.leaf_var('num') if r.random() < 0.7 else None
            return v or self.num_lit()
        k = self.pick(dict(add=5, mul=2, div=1, mod=1, bit=1.2, neg=0.7, logic=0.6, call=1.2, asg=0.6, idx=0.8, size=0.6, obj=1.0, sum=0.3, ccall=0.6, yld=0.8))
        if k == 'add':
            return a.bin(r.choice('+-'), self.expr('num', d - 1), self.expr('num', d - 1))
        if k == 'mul':
            return a.bin('*', self.expr('num', d - 1), a.num(r.choice([0, 1, 2, 3, -1, 4])) if r.random() < 0.8 else self.expr('num', d - 1))
        if k == 'div':
            return a.bin('/', self.expr('num', d - 1), a.num(r.choice([1, 2, 4, 2, -2, 8, 0 if not self.noerr and r.random() < self.p['err'] else 1])))
        if k == 'mod':
            return a.bin('%', self.expr('num', d - 1), a.num(r.choice([2, 3, 5, 7, 10, 0 if not self.noerr and r.random() < self.p['err'] else 4])))
        if k == 'bit':
            op = r.choice(['&', '|', '^', '<<', '>>'])
            return a.bin(op, self.pos_lit(100) if r.random() < 0.6 else self.expr('num', d - 1), self.pos_lit(5 if op in ('<<', '>>') else 60))
        if k == 'neg':
            return a.neg(self.expr('num', d - 1))
        if k == 'logic':
            return a.bin(r.choice(['and', 'or']), self.expr(r.choice(['num', 'bool', 'nil']), d - 1), self.expr('num', d - 1))
        if k == 'asg':
            vs = [v for v in self.visible('num', True) if not v.loop]
            if vs:
                return a.asg(r.choice(vs).name, self.expr('num', d - 1))
        if k == 'call':
            fs = [f for f in self.fns if f.level < self.level_now() and f.ret == 'num' and not f.yields and self.visible_fn(f)]
            if fs and self.loopwork <= 12:
                f = r.choice(fs)
                return a.call(a.var(f.name), [self.expr('num', d - 1) for _ in range(f.nreq + (r.randint(0, f.opt) if f.opt else 0))])
        if k == 'ccall':
            vs = self.visible('clo')
            if vs and self.loopwork <= 12:
                return a.call(a.var(r.choice(vs).name), [self.expr('num', d - 1)])
        if k == 'idx':
            v = self.leaf_var('arr')
            if v:
                return a.bin('or', a.idx(v, self.pos_lit(1)), self.num_lit())
        if k == 'size':
            v = self.leaf_var(r.choice(['arr', 'str']))
            if v:
                return a.get(v, 'size')
        if k == 'sum':
            v = self.leaf_var('arr')
            if v:
                return a.inv(v, 'sum')
        if k == 'obj':
            e = self.obj_num(d)
            if e:
                return e
        if k == 'yld' and self.yields is not None and self.infun == 'fun':
            return a.call(a.var('yield'), [self.expr('num', d - 1) for _ in range(self.yields)])
        return a.bin('+', self.expr('num', d - 1), self.num_lit())

    def level_now(self):
        return self.level if self.infun in ('fun', 'meth') else 99

    def visible_fn(self, f):
        return any(v.name == f.name and v.ty == 'fn' for v in self.visible('fn'))

    def obj_num(self, d):
        r, a = self.r, self.a
        if self.this is not None and self.infun == 'meth' and r.random() < 0.6:
            k = r.random()
            if k < 0.6:
                return a.get(a.this(), r.choice(self.this.fields))
            ms = {n: v for n, v in self.this.all_meths().items() if v[2] < self.level and v[1] == 'num'}
            if ms and self.loopwork <= 6:
                n = r.choice(sorted(ms))
                return a.inv(a.this(), n, [self.expr('num', d - 1) for _ in range(ms[n][0])])
            return a.get(a.this(), r.choice(self.this.fields))
        objs = [v for v in self.visible() if isinstance(v.ty, tuple) and v.ty[0] == 'obj']
        if objs and self.infun != 'meth':
            v = r.choice(objs[:4])
            c = v.ty[1]
            if self.loopwork > 6:
                return a.get(a.var(v.name), 'v')
            return self.obj_call(a.var(v.name), c, d)
        return None

    def obj_call(self, recv, c, d):
        """an expression of type num that uses the object"""
        r, a = self.r, self.a
        opts = ['field']
        ms = {n: v for n, v in c.all_meths().items() if v[1] == 'num' and v[2] < self.level_now()}
        if ms:
            opts += ['meth'] * 4
        if c.all_getters():
            opts += ['getter'] * 2
        if c.all_statics():
            opts += ['static']
        if c.missing and self.r.random() < 0.3:
            opts += ['missing'] * 2
        if ms and self.r.random() < 0.2:
            opts += ['bound', 'send']
        if 'opIndexGet' in c.all_ops():
            opts += ['idx']
        k = r.choice(opts)
        if k == 'field':
            return a.get(recv, 'v')
        if k in ('meth', 'bound', 'send'):
            n = r.choice(sorted(ms))
            args = [self.expr('num', d - 1) for _ in range(ms[n][0])]
            if r.random() < self.p['err'] * 0.3:
                args = args + [self.num_lit()] if r.random() < 0.5 else args[1:]
            if k == 'meth':
                return a.inv(recv, n, args)
            if k == 'send':
                return a.inv(recv, 'send', [a.str(n)] + args)
            return a.call(a.get(recv, n), args)
        if k == 'getter':
            g = r.choice(c.all_getters())
            return a.get(recv, g) if r.random() < 0.7 else a.inv(recv, g)
        if k == 'static':
            st = c.all_statics()
            n = r.choice(sorted(st))
            return a.inv(a.const(c.name), n, [self.expr('num', d - 1) for _ in range(st[n])])
        if k == 'missing':
            return a.inv(recv, self.fresh('zz'), [self.num_lit()])
        if k == 'idx':
            return a.idx(recv, self.expr('num', d - 1))

    def e_bool(self, d):
        r, a = self.r, self.a
        if d <= 0 or r.random() < 0.15:
            v = self.leaf_var('bool') if r.random() < 0.5 else None
            return v or a.bool(r.random() < 0.5)
        k = self.pick(dict(cmp=5, eq=4, neq=2, logic=3, lnot=2, seq=2, odd=0.7))
        if k == 'cmp':
            objs = [v for v in self.visible() if isinstance(v.ty, tuple) and v.ty[0] == 'obj' and 'opCmp' in v.ty[1].all_ops()]
            if len(objs) >= 2 and r.random() < 0.4 and self.loopwork <= 6 and self.infun != 'meth':
                return a.bin(r.choice(['<', '<=', '>', '>=']), a.var(r.choice(objs).name), a.var(r.choice(objs).name))
            return a.bin(r.choice(['<', '<=', '>', '>=']), self.expr('num', d - 1), self.expr('num', d - 1))
        if k == 'eq':
            t = r.choice(['num', 'num', 'str', 'bool', 'arr'])
            return a.bin('==', self.expr(t, d - 1), self.expr(t, d - 1))
        if k == 'neq':
            return a.bin('!=', self.any_expr(d - 1), self.any_expr(d - 1))
        if k == 'logic':
            return a.bin(r.choice(['and', 'or']), self.expr('bool', d - 1), self.expr('bool', d - 1))
        if k == 'lnot':
            return a.lnot(self.expr(r.choice(['bool', 'bool', 'num', 'nil', 'str']), d - 1))
        if k == 'seq':
            objs = [v for v in self.visible() if isinstance(v.ty, tuple) and v.ty[0] == 'obj']
            if objs and self.loopwork <= 6 and self.infun != 'meth':
                return a.bin(r.choice(['==', '!=']), a.var(r.choice(objs).name), a.var(r.choice(objs).name))
            return a.bin('==', self.expr('str', d - 1), self.expr('str', d - 1))
        return a.bin('==', self.any_expr(d - 1), self.a.nil())

    def e_str(self, d):
        r, a = self.r, self.a
        if d <= 0 or r.random() < 0.3:
            v = self.leaf_var('str') if r.random() < 0.6 else None
            return v or a.str(r.choice(WORDS))
        k = self.pick(dict(cat=4, interp=3, conv=2, mul=1, idx=1, typ=0.7, objs=0.7))
        if k == 'cat':
            return a.bin('+', self.expr('str', d - 1), self.expr('str', d - 1))
        if k == 'interp':
            parts = []
            for _ in range(r.randint(1, 3)):
                parts.append(a.str(r.choice(['', 'n=', ' ', 'z:', ', '])))
                parts.append(self.noquote(d - 1))
            parts.append(a.str(r.choice(['', '!', ' end'])))
            return a.interp(parts)
        if k == 'conv':
            return a.call(a.const('String'), [self.any_expr(d - 1)])
        if k == 'mul':
            return a.bin('*', self.expr('str', 0), a.num(r.randint(1, 3)))
        if k == 'idx':
            return a.idx(self.expr('str', 0), self.pos_lit(4))
        if k == 'typ':
            return a.call(a.var('typeof'), [self.any_expr(d - 1)])
        objs = [v for v in self.visible() if isinstance(v.ty, tuple) and v.ty[0] == 'obj']
        if objs and self.loopwork <= 6 and self.infun != 'meth':
            return a.call(a.const('String'), [a.var(r.choice(objs).name)])
        return a.str(r.choice(WORDS))

    def noquote(self, d):
        """an expression without string literals in its text (interpolations can't contain quotes)"""
        r, a = self.r, self.a
        v = self.leaf_var(r.choice(['num', 'num', 'str', 'bool', 'arr']))
        if v and r.random() < 0.5:
            return v
        if d <= 0:
            return self.num_lit()
        return a.bin(r.choice(['+', '-', '*']), self.leaf_var('num') or self.num_lit(), self.num_lit())

    def e_arr(self, d):
        r, a = self.r, self.a
        v = self.leaf_var('arr') if r.random() < 0.6 else None
        if v:
            return v
        return a.arr([self.expr('num', min(d - 1, 1)) for _ in range(r.randint(0, 4))])

    def e_special(self, ty, d):
        if isinstance(ty, tuple) and ty[0] == 'obj':
            vs = self.visible(ty)
            if vs:
                return self.a.var(self.r.choice(vs).name)
        return self.a.nil()

    # --- statements
    def stmts(self, n):
        out = []
        for _ in range(n):
            out += self.stmt()
        return out

    def block(self, n, extra=None):
        self.scopes.append([])
        self.depth += 1
        l = self.stmts(n)
        if extra:
            l += extra()
        self.depth -= 1
        self.scopes.pop()
        return self.a.block(l)

    def stmt(self):
        w = dict(self.p['stmts'])
        if self.depth >= 3 or self.loopwork > 30:
            for k in ('iff', 'forr', 'whil', 'foreach', 'tryc', 'fdef', 'blockcall', 'arrblock', 'yfun', 'pfun', 'closure', 'iterloop'):
                w.pop(k, None)
        if not self.isglobal():
            for k in ('klass', 'module', 'reopen', 'eclass', 'pfun', 'iterclass', 'constdef'):
                w.pop(k, None)
        if self.infun in ('meth', 'block'):
            for k in ('newobj', 'ocall', 'oset', 'fdef', 'yfun', 'oreflect', 'iterloop', 'pcall', 'dup'):
                w.pop(k, None)
        if self.infun == 'fun':
            for k in ('yfun', 'iterloop', 'oreflect'):
                w.pop(k, None)
        for _ in range(8):
            if not w:
                break
            k = self.pick(w)
            s = getattr(self, 's_' + k)()
            if s:
                self.feats.add(k)
                return s
            w.pop(k)
        return [self.a.print(self.any_expr(1))]

    def s_printe(self):
        return [self.a.print(self.any_expr(self.p['depth']))]

    def s_var(self):
        ty = self.pick(dict(num=6, str=2, bool=2, arr=2))
        self.noerr = self.depth == 0
        e = self.expr(ty, self.p['depth'] - 1)
        self.noerr = False
        name = self.varname()
        gl = self.isglobal()
        if self.r.random() < 0.04:
            self.declare(name, 'nil')
            return [self.a.vard(name, 0, gl)]
        if any(v.name == name for v in self.scopes[-1]) and not gl:
            name = self.fresh('v')
        self.declare(name, ty)
        return [self.a.vard(name, e, gl)]

    def s_asg(self):
        vs = [v for v in self.visible(None, True) if v.ty in ('num', 'str', 'bool') and not v.loop]
        if not vs:
            return None
        v = self.r.choice(vs)
        if v.ty == 'num' and self.r.random() < 0.4:
            op = self.r.choice(['+', '-', '*', '%'])
            rhs = self.expr('num', 1) if op in '+-' else self.a.num(self.r.choice([2, 3, 1, 7]))
            return [self.a.expr(self.a.asg(v.name, self.a.bin(op, self.a.var(v.name), rhs), op))]
        e = self.expr(v.ty, self.p['depth'] - 1)
        if v.ty == 'str':
            e = self.expr('str', 1)
        elif v.ty == 'num' and self.loopwork > 1:
            e = self.a.bin('%', e, self.a.num(self.r.choice([100, 1000, 37])))
        return [self.a.expr(self.a.asg(v.name, e))]

    def s_iff(self):
        c = self.expr('bool', self.p['depth'] - 1)
        b = self.block(self.r.randint(1, 3))
        e = 0
        if self.r.random() < 0.5:
            if self.r.random() < 0.3:
                e = self.a.iff(self.expr('bool', 1), self.block(self.r.randint(1, 2)), self.block(1) if self.r.random() < 0.5 else 0)
            else:
                e = self.block(self.r.randint(1, 2))
        return [self.a.iff(c, b, e)]

    def loopbody(self, k, n):
        ow, ol = self.loopwork, self.inloop
        self.loopwork *= k
        self.inloop += 1
        b = self.block(n)
        self.loopwork, self.inloop = ow, ol
        return b

    def s_forr(self):
        r, a = self.r, self.a
        k = r.randint(1, 4)
        name = self.fresh('i')
        self.scopes.append([])
        v = self.declare(name, 'num')
        v.loop = True
        b = self.loopbody(k, r.randint(1, 3))
        self.scopes.pop()
        i = a.vard(name, a.num(0))
        c = a.bin('<', a.var(name), a.num(k))
        s = a.asg(name, a.bin('+', a.var(name), a.num(1)), r.choice(['', '+']))
        return [a.forr(i, c, s, b)]

    def s_whil(self):
        r, a = self.r, self.a
        k = r.randint(1, 4)
        name = self.fresh('w')
        gl = self.isglobal()
        v = self.declare(name, 'num')
        v.loop = True
        ow, ol = self.loopwork, self.inloop
        self.loopwork *= k
        self.inloop += 1
        self.scopes.append([])
        self.depth += 1
        l = [a.expr(a.asg(name, a.bin('+', a.var(name), a.num(1)), '+'))] + self.stmts(r.randint(1, 3))
        self.depth -= 1
        self.scopes.pop()
        self.loopwork, self.inloop = ow, ol
        return [a.vard(name, a.num(0), gl), a.whil(a.bin('<', a.var(name), a.num(k)), a.block(l))]

    def s_foreach(self):
        r, a = self.r, self.a
        name = self.fresh('e')
        k = r.random()
        if k < 0.25:
            arr = a.arr([a.arr([self.num_lit(), self.num_lit()]) for _ in range(r.randint(1, 3))])
            names = [name, name + 'b']
        elif k < 0.6:
            arr = a.arr([self.expr('num', 1) for _ in range(r.randint(0, 4))])
            names = [name]
        else:
            vs = [v for v in self.visible('arr') if v.name not in self.iterating]
            if not vs:
                return None
            arr = a.inv(a.var(r.choice(vs).name), 'dup')
            names = [name]
        self.scopes.append([])
        for n in names:
            self.declare(n, 'num')
        b = self.loopbody(3, r.randint(1, 3))
        self.scopes.pop()
        return [a.foreach(names, arr, b)]

    def s_jump(self):
        if not self.inloop:
            return None
        a = self.a
        j = a.brk() if self.r.random() < 0.5 else a.cont()
        return [a.iff(self.expr('bool', 2), a.block(([a.print(self.num_lit())] if self.r.random() < 0.5 else []) + [j]), 0)]

    # functions
    def function(self, params, body_n, kind='fun', ret=True, tail=None, **kw):
        """params: list of (name, type); returns the statement ids of a body"""
        old = (self.inloop, self.infun, self.depth, self.loopwork, self.yields, self.level)
        self.inloop, self.infun, self.depth, self.loopwork = 0, kind, self.depth + 1, max(self.loopwork, 1)
        self.yields = kw.get('yields') if kind != 'block' else None
        if 'level' in kw:
            self.level = kw['level']
        self.scopes.append([])
        for n, t in params:
            self.declare(n, t)
        l = self.stmts(body_n)
        if tail:
            l += tail()
        elif ret:
            l.append(self.a.ret(self.expr('num', 2)))
        self.scopes.pop()
        self.inloop, self.infun, self.depth, self.loopwork, self.yields, self.level = old
        return l

    def s_fdef(self):
        r, a = self.r, self.a
        if self.infun or self.inloop:
            return None
        n = r.randint(0, 3)
        name = self.fresh('f')
        gl = self.isglobal()
        lvl = len(self.fns) + 1
        ps = [(self.fresh('p'), 'num') for _ in range(n)]
        if r.random() < 0.15 and n >= 1:
            # bounded recursion
            p = ps[0][0]
            self.declare(name, 'fnrec')
            body = [a.iff(a.bin('<=', a.var(p), a.num(0)), a.block([a.ret(a.num(r.randint(0, 5)))]), 0)]
            body += self.function(ps, 1, ret=False, level=lvl)
            inner = a.call(a.var(name), [a.bin('-', a.var(p), a.num(1))] + [a.var(q) for q, _ in ps[1:]])
            body += [a.ret(a.bin('+', a.bin('%', a.var(p), a.num(5)), inner) if r.random() < 0.5 else inner)]
            f = a.fun([q for q, _ in ps], body=body, nm=name)
            return [a.fdef(name, f, gl), a.print(a.call(a.var(name), [a.num(r.randint(1, 5))] + [self.num_lit() for _ in ps[1:]]))]
        body = self.function(ps, r.randint(1, 3), level=lvl)
        f = a.fun([p for p, _ in ps], body=body, nm=name)
        fn = Fn(name, n, level=lvl)
        self.fns.append(fn)
        self.declare(name, 'fn', False)
        return [a.fdef(name, f, gl)]

    def callable_fns(self):
        return [f for f in self.fns if f.level < self.level_now() and self.visible_fn(f) and not f.yields]

    def s_callf(self):
        fs = self.callable_fns()
        if not fs or self.loopwork > 16:
            return None
        f = self.r.choice(fs)
        n = f.nreq
        if self.r.random() < self.p['err'] * 0.3:
            n += self.r.choice([-1, 1])
        c = self.a.call(self.a.var(f.name), [self.expr('num', 1) for _ in range(max(n, 0))])
        return [self.a.print(c)] if self.r.random() < 0.7 else [self.a.expr(c)]

    def s_closure(self):
        """a closure stored in a variable; it reads and writes captured variables"""
        r, a = self.r, self.a
        if self.infun == 'block':
            return None
        k = r.random()
        name = self.fresh('c')
        gl = self.isglobal()
        p = self.fresh('p')
        lvl = 0
        old = self.infun
        if k < 0.4:
            body = self.closure_body([(p, 'num')])
            f = a.fun([p], body=body)
            self.declare(name, 'clo', False)
            return [a.vard(name, f, gl)]
        if k < 0.75:
            # a maker: a function with its own local variables, that returns a closure
            mk, cell = self.fresh('mk'), self.fresh('n')
            self.scopes.append([])
            self.declare(cell, 'num')
            inner = a.fun([p], body=self.closure_body([(p, 'num')]))
            self.scopes.pop()
            f = a.fun([cell], body=[a.ret(inner)], nm=mk)
            self.declare(name, 'clo', False)
            self.declare(mk, 'mkf', False)
            out = [a.fdef(mk, f, gl), a.vard(name, a.call(a.var(mk), [self.num_lit()]), gl)]
            n2 = self.fresh('c')
            self.declare(n2, 'clo', False)
            out.append(a.vard(n2, a.call(a.var(mk), [self.num_lit()]), gl))
            return out
        # closures created in a loop, collected in an array, then called
        arr = self.fresh('cs')
        self.declare(arr, 'cloarr', False)
        i, y = self.fresh('i'), self.fresh('y')
        kind = r.random()
        self.scopes.append([])
        self.declare(i, 'num').loop = True
        self.scopes.append([])
        self.declare(y, 'num')
        inner = a.fun([p], body=self.closure_body([(p, 'num')]))
        self.scopes.pop()
        self.scopes.pop()
        body = a.block([a.vard(y, a.bin('*', a.var(i), a.num(2))), a.expr(a.inv(a.var(arr), 'push', [inner]))])
        if kind < 0.5:
            loop = a.forr(a.vard(i, a.num(0)), a.bin('<', a.var(i), a.num(3)), a.asg(i, a.bin('+', a.var(i), a.num(1)), '+'), body)
        else:
            loop = a.foreach([i], a.arr([a.num(1), a.num(2), a.num(3)]), body)
        g = self.fresh('g')
        use = a.foreach([g], a.var(arr), a.block([a.print(a.call(a.var(g), [self.num_lit()])), a.print(a.call(a.var(g), [self.num_lit()]))]))
        return [a.vard(arr, a.arr([]), gl), loop, use]

    def closure_body(self, ps):
        """assign captured variables and return a number"""
        r, a = self.r, self.a
        old = (self.infun, self.inloop, self.level, self.yields, self.loopwork)
        self.infun, self.inloop, self.level, self.yields = 'fun', 0, 0, None
        self.loopwork = 20
        self.depth += 1
        self.scopes.append([])
        for n, t in ps:
            self.declare(n, t)
        l = []
        vs = [v for v in self.visible('num', True) if not v.loop]
        for _ in range(r.randint(1, 2)):
            if vs:
                v = r.choice(vs[:6])
                l.append(a.expr(a.asg(v.name, self.expr('num', 1))))
        if r.random() < 0.3:
            l.append(a.print(self.expr('num', 1)))
        if r.random() < 0.25:
            ln = self.varname()
            if not any(v.name == ln for v in self.scopes[-1]):
                l.append(a.vard(ln, self.expr('num', 1)))
                self.declare(ln, 'num')
        l.append(a.ret(self.expr('num', 2)))
        self.scopes.pop()
        self.depth -= 1
        self.infun, self.inloop, self.level, self.yields, self.loopwork = old
        return l

    def s_ccall(self):
        vs = self.visible('clo')
        if not vs or self.loopwork > 16:
            return None
        out = []
        for _ in range(self.r.randint(1, 2)):
            out.append(self.a.print(self.a.call(self.a.var(self.r.choice(vs).name), [self.expr('num', 1)])))
        nv = [v for v in self.visible('num')]
        if nv and self.r.random() < 0.6:
            out.append(self.a.print(self.a.var(self.r.choice(nv[:5]).name)))
        return out

    # exceptions
    def catch_clause(self, cls=None):
        r, a = self.r, self.a
        v = self.fresh('x')
        self.scopes.append([])
        self.depth += 1
        l = [a.print(a.get(a.var(v), 'class')), a.print(a.get(a.var(v), 'message'))]
        if r.random() < 0.4:
            l += self.stmts(1)
        if r.random() < 0.12:
            l.append(a.throw(a.var(v)))
        self.depth -= 1
        self.scopes.pop()
        return [a.const(cls or r.choice(self.eclasses)), v, a.block(l)]

    def s_tryc(self):
        r, a = self.r, self.a
        # a jump may leave the body of a try statement, but not one with an ensure clause
        hasens = r.random() < 0.4
        oi, of = self.inloop, self.infun
        if hasens:
            self.inloop = 0
        b = self.block(r.randint(1, 3), (lambda: self.s_throw() or []) if r.random() < 0.4 else None)
        n = r.choice([1, 1, 2, 3, 0]) if hasens else r.choice([1, 1, 2, 3])
        cs = [self.catch_clause() for _ in range(n)]
        if r.random() < 0.5 and n:
            cs.append(self.catch_clause('Error'))
        el = self.block(1) if cs and r.random() < 0.25 else 0
        en = self.block(r.randint(1, 2)) if hasens else 0
        self.inloop = oi
        t = a.tryy(b, cs, el, en)
        if (not cs or r.random() < 0.2) and self.depth < 3:
            t = a.tryy(a.block([t]), [self.catch_clause('Error')])
        return [t]

    def s_throw(self):
        r, a = self.r, self.a
        e = r.random()
        if e < 0.8:
            x = a.call(a.const(r.choice(self.eclasses)), [self.expr('str', 1)] if r.random() < 0.9 else [])
        else:
            x = self.any_expr(1)
        t = a.throw(x)
        if self.isglobal() and r.random() < 0.9:
            return [a.tryy(a.block([t]), [self.catch_clause('Error')])]
        return [a.iff(self.expr('bool', 1), a.block([t]), 0)] if r.random() < 0.7 else [t]

    def s_tryerr(self):
        """an expression that is likely to be an error"""
        r, a = self.r, self.a
        bad = r.choice(['type', 'undef', 'undefc', 'call', 'prop', 'div', 'inv', 'arity', 'cmp', 'neg', 'idx', 'meth', 'setp', 'foreach', 'splat'])
        anyv = lambda: self.expr(r.choice(['num', 'bool', 'nil', 'str', 'arr']), 1)
        if bad == 'type':
            e = a.bin(r.choice(['+', '-', '*', '/', '%']), self.expr(r.choice(['bool', 'nil', 'num', 'str']), 1), self.expr(r.choice(['bool', 'nil', 'str']), 1))
        elif bad == 'undef':
            e = a.bin('+', self.num_lit(), a.var(self.fresh('undef')))
        elif bad == 'undefc':
            e = a.const(self.fresh('Undef'))
        elif bad == 'call':
            e = a.call(self.leaf_var(r.choice(['num', 'bool', 'str'])) or a.nil(), [self.num_lit()])
        elif bad == 'prop':
            e = a.get(self.leaf_var(r.choice(['num', 'bool'])) or a.nil(), 'foo')
        elif bad == 'div':
            v = self.leaf_var('num')
            e = a.bin(r.choice(['/', '%']), v or a.idx(a.arr([a.num(3)]), a.num(0)), a.num(0))
        elif bad == 'inv':
            e = a.inv(self.leaf_var(r.choice(['num', 'bool'])) or a.nil(), 'foo', [])
        elif bad == 'arity':
            fs = self.callable_fns()
            if not fs:
                return None
            f = r.choice(fs)
            e = a.call(a.var(f.name), [self.num_lit() for _ in range(f.nreq + 1 if r.random() < 0.5 or f.nreq == 0 else f.nreq - 1)])
        elif bad == 'cmp':
            e = a.bin(r.choice(['<', '>', '<=', '>=']), self.expr(r.choice(['nil', 'bool', 'num']), 1), self.expr(r.choice(['nil', 'bool']), 1))
        elif bad == 'neg':
            e = a.neg(self.leaf_var(r.choice(['str', 'bool', 'arr'])) or a.idx(a.arr([a.str('s')]), a.num(0)))
        elif bad == 'idx':
            e = a.idx(self.leaf_var(r.choice(['num', 'bool'])) or a.nil(), self.num_lit())
        elif bad == 'meth':
            e = a.inv(self.expr(r.choice(['str', 'arr']), 0), 'nope', [self.num_lit()])
        elif bad == 'setp':
            e = a.set(self.leaf_var('num') or a.nil(), 'foo', self.num_lit())
        elif bad == 'foreach':
            return [a.tryy(a.block([a.foreach([self.fresh('e')], self.leaf_var('num') or a.nil(), a.block([a.print(a.num(1))]))]), [self.catch_clause('Error')])]
        else:
            fs = self.callable_fns()
            if not fs:
                return None
            e = a.call(a.var(r.choice(fs).name), [self.leaf_var('num') or a.nil()], sp=[1])
        b = a.block([a.print(e)])
        if r.random() < 0.3:
            b = a.block([a.print(self.num_lit()), a.print(a.bin('+', self.num_lit(), e)) if bad in ('undef',) else a.print(a.arr([self.num_lit(), e])), a.print(self.num_lit())])
        return [a.tryy(b, [self.catch_clause('Error')])]

    def s_eclass(self):
        name = self.fresh('Err')
        sup = self.r.choice(self.eclasses)
        self.eclasses.append(name)
        return [self.a.klass(name, self.a.const(sup), [])]

    # blocks
    def s_yfun(self):
        r, a = self.r, self.a
        if self.infun or self.inloop:
            return None
        name = self.fresh('y')
        gl = self.isglobal()
        ny = r.randint(0, 2)
        ps = [(self.fresh('p'), 'num') for _ in range(r.randint(0, 2))]
        bp = self.fresh('b') if r.random() < 0.3 else ''
        fn = Fn(name, len(ps), yields=1 + ny, level=len(self.fns) + 1)

        def yld():
            vals = [self.expr('num', 1) for _ in range(ny)]
            return a.inv(a.var(bp), 'yield', vals) if bp and r.random() < 0.7 else a.call(a.var('yield'), vals)

        def tail():
            k = r.random()
            if k < 0.3:
                i = self.fresh('i')
                self.scopes.append([])
                self.declare(i, 'num').loop = True
                loop = a.forr(a.vard(i, a.num(0)), a.bin('<', a.var(i), a.num(r.randint(1, 3))), a.asg(i, a.bin('+', a.var(i), a.num(1)), '+'),
                              a.block([a.print(yld())]))
                self.scopes.pop()
                return [loop, a.ret(self.expr('num', 1))]
            if k < 0.45:
                return [a.tryy(a.block([a.print(yld())]), [self.catch_clause('Error')]), a.ret(yld())]
            if k < 0.6:
                return [a.iff(a.call(a.var('blockGiven'), []), a.block([a.ret(yld())]), 0), a.ret(self.num_lit())]
            return [a.print(yld()), a.ret(yld())]
        body = self.function(ps, r.randint(0, 1), tail=tail, level=fn.level)
        f = a.fun([p for p, _ in ps], bp=bp, body=body, nm=name)
        self.fns.append(fn)
        self.declare(name, 'fn', False)
        return [a.fdef(name, f, gl)]

    def block_lit(self, nparams, ret='num', jumps=True):
        """a block literal: returns the node of its function"""
        r, a = self.r, self.a
        ps = [(self.fresh('q'), 'num') for _ in range(nparams)]
        self.loopwork *= 3

        def tail():
            out = []
            if jumps and r.random() < 0.35:
                j = r.choice([a.cont, a.brk, lambda: a.ret(self.expr(ret, 1))])
                out.append(a.iff(self.expr('bool', 2), a.block([j()]), 0))
            out.append(a.expr(self.expr(ret, 2)))
            return out
        body = self.function(ps, r.choice([0, 0, 1, 2]), kind='block', tail=tail)
        self.loopwork //= 3
        return a.fun([p for p, _ in ps], body=body)

    def s_blockcall(self):
        r, a = self.r, self.a
        fs = [f for f in self.fns if f.yields and f.level < self.level_now() and self.visible_fn(f)]
        if not fs or self.loopwork > 9:
            return None
        f = r.choice(fs)
        args = [self.expr('num', 1) for _ in range(f.nreq)]
        k = r.random()
        if k < 0.7:
            n = f.yields - 1 if r.random() < 0.8 else r.randint(0, 2)
            c = a.call(a.var(f.name), args, blk=self.block_lit(n))
        elif k < 0.85:
            cl = [v for v in self.visible('clo')] + [v for v in self.visible('fn') if any(g.name == v.name and g.nreq == f.yields - 1 and not g.yields and not g.opt and not g.rest and not g.kw for g in self.fns)]
            if f.yields != 2:
                cl = [v for v in cl if v.ty == 'fn']
            if not cl:
                return None
            c = a.call(a.var(f.name), args, ba=a.var(r.choice(cl).name))
        else:
            c = a.call(a.var(f.name), args)
            return [a.tryy(a.block([a.print(c)]), [self.catch_clause('Error')])]
        return [a.print(c)] if r.random() < 0.8 else [a.expr(c)]

    def s_arrblock(self):
        r, a = self.r, self.a
        if self.loopwork > 9:
            return None
        arr = a.arr([self.expr('num', 1) for _ in range(r.randint(0, 4))]) if r.random() < 0.6 else self.expr('arr', 0)
        if a.n(arr)['t'] == 'var':
            arr = a.inv(arr, 'dup')
        k = r.choice(['each', 'map', 'select', 'reject', 'find', 'reduce', 'each', 'map'])
        if k == 'reduce':
            c = a.inv(arr, 'reduce', [self.num_lit()], blk=self.block_lit(2, 'num', jumps=False))
        else:
            c = a.inv(arr, k, blk=self.block_lit(1, 'bool' if k in ('select', 'reject', 'find') else 'num'))
        return [a.print(c)] if r.random() < 0.85 else [a.expr(c)]

    # parameters and arguments
    def s_pfun(self):
        r, a = self.r, self.a
        if self.infun or self.inloop:
            return None
        name = self.fresh('g')
        gl = self.isglobal()
        req = [self.fresh('p') for _ in range(r.randint(0, 2))]
        opt = [self.fresh('o') for _ in range(r.choice([0, 0, 1, 2]))]
        rest = self.fresh('r') if r.random() < 0.35 else ''
        kw = [self.fresh('k') for _ in range(r.choice([0, 0, 1, 2]))]
        bp = self.fresh('b') if r.random() < 0.2 else ''
        optd, kwd = [], []
        sc = []
        self.scopes.append(sc)
        for p in req:
            self.declare(p, 'num')
        for o in opt:
            optd.append((o, self.expr('num', 1)))
            self.declare(o, 'num')
        for k in kw:
            kwd.append((k, self.expr('num', 1)))
            self.declare(k, 'num')
        show = a.arr([a.var(p) for p in req + opt] + ([a.var(rest)] if rest else []) + [a.var(k) for k in kw])
        body = [a.print(show)]
        if opt and r.random() < 0.4:
            body.append(a.expr(a.asg(opt[0], a.num(1))))
        if bp and r.random() < 0.5:
            body.append(a.iff(a.var(bp), a.block([a.print(a.inv(a.var(bp), 'yield', [a.num(3)]))]), 0))
        ks = req + opt + kw
        body.append(a.ret(a.bin('+', a.var(r.choice(ks)), a.num(1)) if ks else a.num(7)))
        self.scopes.pop()
        f = a.fun(req, optd, rest, kwd, bp, body, nm=name)
        fn = Fn(name, len(req), opt=len(opt), rest=bool(rest), kw=kw, level=len(self.fns) + 1)
        fn.ret = 'pf'
        fn.bp = bool(bp)
        self.fns.append(fn)
        self.declare(name, 'fn', False)
        return [a.fdef(name, f, gl)]

    def s_pcall(self):
        r, a = self.r, self.a
        fs = [f for f in self.fns if f.ret == 'pf' and self.visible_fn(f)]
        if not fs:
            return None
        f = r.choice(fs)
        n = f.nreq + r.randint(0, f.opt) + (r.randint(0, 2) if f.rest else 0)
        if not f.rest and f.kw and r.random() < 0.15:
            n = f.nreq + f.opt + r.randint(0, len(f.kw))
        err = r.random() < 0.2
        if err:
            n = max(0, n + r.choice([-1, 1, 2, -2]))
        kws = [k for k in f.kw if r.random() < 0.5]
        r.shuffle(kws)
        if not f.rest and n > f.nreq + f.opt:
            kws = []
        if err and r.random() < 0.3:
            kws.append('nokw')
        args, sp = [], []
        left = n
        while left > 0:
            if r.random() < 0.25 or len(args) >= 7:
                k = r.randint(0, left)
                if len(args) >= 7:
                    k = left    # at most 8 arguments are allowed in a call
                args.append(a.arr([self.expr('num', 1) for _ in range(k)]))
                sp.append(1)
                left -= k
            else:
                args.append(self.expr('num', 1))
                sp.append(0)
                left -= 1
        kws = kws[:max(0, 8 - len(args))]
        blk = 0
        if getattr(f, 'bp', False) and r.random() < 0.5 and not err:
            blk = self.block_lit(1, jumps=False)
        c = a.call(a.var(f.name), args, sp=sp, kw=[(k, self.expr('num', 1)) for k in kws], blk=blk)
        if err:
            return [a.tryy(a.block([a.print(c)]), [self.catch_clause('Error')])]
        return [a.print(c)]

    # classes
    def meth_fun(self, cls, name, nparams, kind='me', tail=None, nstm=None, ret=True):
        r, a = self.r, self.a
        ps = [(self.fresh('p'), 'num') for _ in range(nparams)]
        oldthis = self.this
        self.this = cls if kind != 'st' else None
        body = self.function(ps, r.choice([0, 1, 1, 2]) if nstm is None else nstm, kind='meth', tail=tail(ps) if tail else None, level=self.mlevel, ret=ret)
        self.this = oldthis
        sep = '.' if kind == 'st' else '#'
        return a.fun([p for p, _ in ps], body=body, nm=name, an=cls.name + sep + name)

    def s_klass(self):
        r, a = self.r, self.a
        if len(self.classes) >= 5:
            return None
        name = self.fresh('C')
        sup = r.choice(self.classes) if self.classes and r.random() < 0.6 else None
        c = Cls(name, sup)
        if sup:
            c.ninit = sup.ninit
        members = self.members(c, True)
        out = [a.klass(name, a.const(sup.name) if sup else 0, members)]
        if self.modules and r.random() < 0.5:
            m = r.choice(self.modules)
            if m not in c.chain():
                c.mods.append(m)
                out.append(a.expr(a.inv(a.const(name), 'include', [a.const(m.name)])))
                if r.random() < 0.4:
                    m2 = r.choice(self.modules)
                    if m2 not in c.chain():
                        c.mods.append(m2)
                        out.append(a.expr(a.inv(a.const(name), 'include', [a.const(m2.name)])))
        self.classes.append(c)
        vn = self.fresh('ob')
        out.append(a.vard(vn, a.call(a.const(name), [self.num_lit() for _ in range(c.ninit)]), True))
        self.declare(vn, ('obj', c), False)
        return out

    def members(self, c, isclass):
        r, a = self.r, self.a
        members = []
        self.mlevel = 1
        names = ['m1', 'm2', 'm3', 'm4']
        if isclass and (c.sup is None or r.random() < 0.3):
            # init(x) { this.v = x; } possibly with super
            def itail(ps):
                def go():
                    l = []
                    if c.sup:
                        l.append(a.expr(a.sup('init', [a.var(p) for p, _ in ps])))
                        if r.random() < 0.5:
                            l.append(a.expr(a.set(a.this(), 'v', a.bin('+', a.get(a.this(), 'v'), a.num(1)))))
                    else:
                        l.append(a.expr(a.set(a.this(), 'v', a.var(ps[0][0]))))
                    if r.random() < 0.15:
                        l.append(a.ret())
                    return l
                return go
            members.append(a.meth('me', 'init', self.meth_fun(c, 'init', c.ninit, tail=itail, nstm=0)))
        if r.random() < 0.3:
            K = 'K%d' % r.randint(1, 3)
            c.consts.append(K)
            members.append(a.casg(K, a.num(self.r.randint(0, 99))))
        for n in names:
            if r.random() < 0.5:
                inherited = None
                for s in c.chain()[1:]:
                    if n in s.meths:
                        inherited = s.meths[n]
                        break
                np = inherited[0] if inherited else r.randint(0, 2)

                def mtail(ps, n=n, inherited=inherited):
                    def go():
                        l = []
                        if r.random() < 0.3 and self.this:
                            l.append(a.expr(a.set(a.this(), 'v', self.expr('num', 1))))
                        if (inherited or (not isclass and r.random() < 0.4)) and r.random() < 0.6:
                            s = a.sup(n, [a.var(p) for p, _ in ps])
                            l.append(a.ret(a.bin('+', s, self.num_lit()) if r.random() < 0.5 else s))
                        elif c.consts and r.random() < 0.4:
                            l.append(a.ret(a.const(r.choice(c.consts))))
                        else:
                            l.append(a.ret(self.expr('num', 2)))
                        return l
                    return go
                self.mlevel = 1 + names.index(n)
                f = self.meth_fun(c, n, np, tail=mtail)
                c.meths[n] = (np, 'num', 1 + names.index(n))
                members.append(a.meth('me', n, f))
        self.mlevel = 6
        if r.random() < 0.3:
            g = r.choice(['ga', 'gb'])
            members.append(a.meth('ge', g, self.meth_fun(c, g, 0)))
            c.getters.append(g)
        if r.random() < 0.25:
            s = r.choice(['sa', 'sb'])
            members.append(a.meth('se', s, self.meth_fun(c, s, 1, tail=lambda ps: lambda: [a.expr(a.set(a.this(), 'v', a.bin('*', a.var(ps[0][0]), a.num(2))))], nstm=0)))
            c.setters.append(s)
        if r.random() < 0.3 and isclass:
            s = r.choice(['st1', 'st2'])
            np = r.randint(0, 1)
            inh = c.sup and s in c.sup.all_statics()
            if inh:
                np = c.sup.all_statics()[s]

            def stail(ps):
                def go():
                    if inh and r.random() < 0.6:
                        return [a.ret(a.bin('+', a.sup(s, [a.var(p) for p, _ in ps]), self.num_lit()))]
                    return [a.ret(self.expr('num', 1))]
                return go
            f = self.meth_fun(c, s, np, kind='st', tail=stail)
            members.append(a.meth('st', s, f))
            c.statics[s] = np
        if isclass:
            if r.random() < 0.25:
                members.append(a.meth('me', 'toString', self.meth_fun(c, 'toString', 0, tail=lambda ps: lambda: [a.ret(a.interp([a.str('<' + c.name + ' '), a.get(a.this(), 'v'), a.str('>')]))], nstm=0)))
                c.ops.add('toString')
            for op, p in (('opEquals', .25), ('opCmp', .25), ('opAdd', .2), ('opIndexGet', .15)):
                if r.random() < p:
                    def otail(ps, op=op):
                        q = ps[0][0]
                        o = lambda: a.get(a.var(q), 'v')
                        t = lambda: a.get(a.this(), 'v')
                        e = {'opEquals': lambda: a.bin('==', a.bin('%', t(), a.num(3)), a.bin('%', o(), a.num(3))),
                             'opCmp': lambda: a.bin('-', a.bin('%', t(), a.num(50)), a.bin('%', o(), a.num(50))),
                             'opAdd': lambda: a.bin('+', t(), o()),
                             'opIndexGet': lambda: a.bin('+', t(), a.var(q))}[op]
                        return lambda: [a.ret(e())]
                    members.append(a.meth('me', op, self.meth_fun(c, op, 1, tail=otail, nstm=0)))
                    c.ops.add(op)
            if r.random() < 0.12:
                ps = [self.fresh('n'), self.fresh('r')]
                f = a.fun([ps[0]], rest=ps[1], body=[a.print(a.arr([a.var(ps[0]), a.var(ps[1])])), a.ret(a.num(r.randint(0, 9)))], nm='methodMissing', an=c.name + '#methodMissing')
                members.append(a.meth('me', 'methodMissing', f))
                c.missing = True
        return members

    def s_module(self):
        if len(self.modules) >= 3:
            return None
        name = self.fresh('M')
        c = Cls(name, None, True)
        l = self.members(c, False)
        self.modules.append(c)
        return [self.a.module(name, l)]

    def s_reopen(self):
        r, a = self.r, self.a
        if not self.classes:
            return None
        c = r.choice(self.classes)
        n = r.choice(['m1', 'm2', 'm5'])
        inh = c.all_meths().get(n)
        self.mlevel = inh[2] if inh else 5
        np = inh[0] if inh else r.randint(0, 1)
        f = self.meth_fun(c, n, np)
        c.meths[n] = (np, 'num', self.mlevel)
        return [a.klass(c.name, 0, [a.meth('me', n, f)])]

    def s_newobj(self):
        r, a = self.r, self.a
        if not self.classes or self.loopwork > 8:
            return None
        c = r.choice(self.classes)
        n = c.ninit
        if r.random() < self.p['err'] * 0.3:
            n += r.choice([-1, 1])
        vn = self.fresh('ob')
        gl = self.isglobal()
        e = a.call(a.const(c.name), [self.expr('num', 1) for _ in range(n)])
        if n != c.ninit:
            return [a.tryy(a.block([a.print(e)]), [self.catch_clause('Error')])]
        self.declare(vn, ('obj', c), False)
        out = [a.vard(vn, e, gl)]
        if self.modules and r.random() < 0.15:
            m = r.choice(self.modules)
            if m not in c.chain():
                out.append(a.expr(a.inv(a.var(vn), 'extend', [a.const(m.name)])))
                c2 = Cls(c.name, c)
                c2.mods = [m]
                c2.name = c.name
                self.scopes[-1][-1].ty = ('obj', c2)
                c2.ninit = c.ninit
        return out

    def objs(self):
        return [v for v in self.visible() if isinstance(v.ty, tuple) and v.ty[0] == 'obj']

    def s_ocall(self):
        r, a = self.r, self.a
        vs = self.objs()
        if not vs or self.loopwork > 8:
            return None
        v = r.choice(vs)
        c = v.ty[1]
        k = r.random()
        if k < 0.75:
            e = self.obj_call(a.var(v.name), c, 1)
            s = a.print(e)
            if r.random() < 0.25:
                return [a.tryy(a.block([s]), [self.catch_clause('Error')])]
            return [s]
        if k < 0.85:
            return [a.print(a.var(v.name))]
        w = r.choice(vs)
        ops = c.all_ops()
        if 'opAdd' in ops and r.random() < 0.5:
            return [a.print(a.bin('+', a.var(v.name), a.var(w.name)))]
        return [a.print(a.bin(r.choice(['==', '!=']), a.var(v.name), a.var(w.name)))]

    def s_oset(self):
        r, a = self.r, self.a
        vs = self.objs()
        if not vs:
            return None
        v = r.choice(vs)
        c = v.ty[1]
        names = ['v', 'v', self.r.choice(['w', 'z'])] + c.all_setters() * 2
        n = r.choice(names)
        val = self.expr('num', 1)
        if n == 'v' and r.random() < 0.3:
            val = a.bin('+', a.get(a.var(v.name), 'v'), self.num_lit())
        e = a.set(a.var(v.name), n, val)
        return [a.print(e) if r.random() < 0.3 else a.expr(e), a.print(a.get(a.var(v.name), n if n not in c.all_setters() else 'v'))]

    def s_oreflect(self):
        r, a = self.r, self.a
        vs = self.objs()
        if not vs:
            return None
        v = r.choice(vs)
        c = v.ty[1]
        x = lambda: a.var(v.name)
        k = r.choice(['respondsTo', 'hasProperty', 'getProperty', 'class', 'ancestors', 'dup', 'isSame', 'setProperty', 'superClass', 'name', 'typeof', 'hasGetter', 'hasSetter', 'classof', 'alias', 'define'])
        mn = r.choice(['m1', 'm2', 'm3', 'm5', 'ga', 'sa', 'toString', 'nope'])
        if k in ('respondsTo', 'hasGetter', 'hasSetter'):
            return [a.print(a.inv(x(), k, [a.str(mn)]))]
        if k in ('hasProperty', 'getProperty'):
            n = r.choice(['v', 'w', 'ga', 'nope'])
            return [a.print(a.inv(x(), k, [a.str(n)]))]
        if k == 'setProperty':
            return [a.expr(a.inv(x(), k, [a.str('w'), self.num_lit()])), a.print(a.get(x(), 'w'))]
        if k == 'class':
            return [a.print(a.get(x(), 'class'))]
        if k == 'classof':
            return [a.print(a.call(a.var('classof'), [x()]))]
        if k == 'superClass':
            return [a.print(a.get(a.get(x(), 'class'), 'superClass'))]
        if k == 'name':
            return [a.print(a.get(a.get(x(), 'class'), 'name'))]
        if k == 'typeof':
            return [a.print(a.call(a.var('typeof'), [r.choice([x(), a.get(x(), 'class'), a.get(x(), 'nope')])]))]
        if k == 'ancestors':
            return [a.print(a.inv(a.const(c.name), 'ancestors'))]
        if k == 'alias':
            ms = sorted(r2 for r2 in self.realcls(c).meths)
            if not ms:
                return None
            n = r.choice(ms)
            al = self.fresh('al')
            return [a.expr(a.inv(a.const(c.name), 'aliasMethod', [a.str(n), a.str(al)])), a.print(a.inv(x(), al, [self.num_lit() for _ in range(self.realcls(c).meths[n][0])]))]
        if k == 'define':
            n = self.fresh('dm')
            p = self.fresh('p')
            return [a.expr(a.inv(a.const(c.name), 'defineMethod', [a.str(n), a.fun([p], body=[a.ret(a.bin('+', a.var(p), a.num(1)))])])), a.print(a.inv(x(), n, [self.num_lit()]))]
        if k == 'dup':
            n = self.fresh('ob')
            if len(c.mods) and c.sup and c.name == c.sup.name:
                return None
            gl = self.isglobal()
            self.declare(n, v.ty, False)
            return [a.vard(n, a.inv(x(), 'dup'), gl), a.expr(a.set(a.var(n), 'v', self.num_lit())), a.print(a.get(x(), 'v')), a.print(a.get(a.var(n), 'v'))]
        w = r.choice(vs)
        return [a.print(a.inv(x(), 'isSame', [a.var(w.name)]))]

    def realcls(self, c):
        return c.sup if c.sup and c.sup.name == c.name else c

    # collections
    def s_avar(self):
        r, a = self.r, self.a
        n = self.fresh('a')
        gl = self.isglobal()
        k = r.random()
        if k < 0.6:
            e = a.arr([self.expr('num', 1) for _ in range(r.randint(0, 5))])
        elif k < 0.75:
            e = a.call(a.const('Array'), [self.num_lit() for _ in range(r.randint(0, 3))])
        else:
            v = self.leaf_var('arr')
            if not v:
                return None
            e = r.choice([lambda: v, lambda: a.inv(v, 'dup'), lambda: a.inv(v, 'reverse'), lambda: a.inv(v, 'sort')])()
        self.declare(n, 'arr')
        return [a.vard(n, e, gl)]

    def lv(self, ty):
        vs = [v for v in self.visible(ty) if v.name not in self.iterating]
        return self.r.choice(vs[:6]).name if vs else None

    def guard(self, stm, name, frozen_possible=True):
        if self.pname in ('freeze', 'array', 'map', 'string') and self.r.random() < 0.5:
            return [self.a.tryy(self.a.block([stm]), [self.catch_clause('Error')])]
        return [stm]

    def s_amut(self):
        r, a = self.r, self.a
        n = self.lv('arr')
        if not n:
            return None
        x = lambda: a.var(n)
        k = r.choice(['push', 'pop', 'pushFront', 'popFront', 'delete', 'deleteAt', 'set', 'set', 'shovel', 'clear', 'push'])
        if k in ('push', 'pushFront', 'delete'):
            e = a.inv(x(), k, [self.expr('num', 1)])
        elif k in ('pop', 'popFront'):
            e = a.inv(x(), k)
        elif k == 'clear':
            if r.random() < 0.7:
                return None
            e = a.inv(x(), k)
        elif k == 'deleteAt':
            e = a.inv(x(), k, [a.num(r.randint(-1, 4)) if r.random() < 0.9 else self.any_expr(1)])
        elif k == 'set':
            e = a.idxset(x(), a.num(r.randint(-1, 5)) if r.random() < 0.9 else self.any_expr(0), self.expr('num', 1))
        else:
            e = a.bin('<<', x(), self.num_lit())
        out = self.guard(a.print(e) if r.random() < 0.7 else a.expr(e), n)
        if r.random() < 0.6:
            out.append(a.print(x()))
        return out

    def s_aread(self):
        r, a = self.r, self.a
        n = self.lv('arr')
        if not n:
            return None
        x = lambda: a.var(n)
        k = r.choice(['first', 'last', 'idx', 'size', 'sum', 'reverse', 'sort', 'join', 'eq', 'dup', 'toString', 'alias', 'nest', 'sort'])
        if k in ('first', 'last', 'sum', 'reverse', 'sort', 'toString', 'dup'):
            e = a.inv(x(), k)
        elif k == 'idx':
            e = a.idx(x(), a.num(r.randint(-2, 6)))
        elif k == 'size':
            e = a.get(x(), 'size')
        elif k == 'join':
            e = a.inv(x(), 'join', [a.str(r.choice(WORDS))] if r.random() < 0.9 else [self.num_lit()])
        elif k == 'eq':
            m = self.lv('arr')
            e = a.bin(r.choice(['==', '!=']), x(), a.var(m) if r.random() < 0.5 else a.arr([self.num_lit() for _ in range(r.randint(0, 3))]))
        elif k == 'alias':
            m = self.fresh('a')
            gl = self.isglobal()
            self.declare(m, 'arr')
            return [a.vard(m, x(), gl)]
        else:
            e = a.arr([x(), self.any_expr(1)])
        return self.guard(a.print(e), n)

    def mkey(self):
        r, a = self.r, self.a
        return r.choice([lambda: a.num(r.randint(0, 5)), lambda: a.str(r.choice(['a', 'b', 'c', 'k'])), lambda: a.num(r.choice([1, 3]), 2), lambda: a.bool(r.random() < .5), lambda: a.nil(),
                         lambda: a.bin('+', a.str('a'), a.str(r.choice(['', 'b']))), lambda: a.num(r.randint(0, 3)), lambda: a.str(r.choice(['a', 'b', 'c', 'ab']))])()

    def nkey(self):
        return self.a.num(self.r.randint(0, 12))

    def s_mapvar(self):
        r, a = self.r, self.a
        n = self.fresh('m')
        gl = self.isglobal()
        k = r.random()
        if k < 0.5:
            l = []
            for _ in range(r.randint(0, 4)):
                l += [self.mkey(), self.expr('num', 1)]
            e = a.map(l)
        elif k < 0.6:
            e = a.call(a.const('Map'), [])
        else:
            v = self.leaf_var('map')
            if not v:
                return None
            o = self.lv('map')
            e = r.choice([lambda: v, lambda: a.inv(v, 'dup'), lambda: a.inv(v, 'merge', [a.var(o)]), lambda: a.inv(v, 'slice', [self.mkey(), self.mkey()])])()
        self.declare(n, 'map')
        return [a.vard(n, e, gl)]

    def s_mmut(self):
        r, a = self.r, self.a
        n = self.lv('map')
        if not n:
            return None
        x = lambda: a.var(n)
        k = r.choice(['set', 'set', 'set', 'delete', 'delete', 'clear', 'mergeWith', 'many', 'rehash'])
        if k == 'set':
            e = a.idxset(x(), self.mkey(), self.expr('num', 1))
        elif k == 'delete':
            e = a.inv(x(), 'delete', [self.mkey()])
        elif k == 'mergeWith':
            e = a.inv(x(), k, [a.var(self.lv('map'))])
            return self.guard(a.expr(e), n)
        elif k == 'many':
            # a loop of insertions and deletions
            i = self.fresh('i')
            ops = [a.expr(a.idxset(x(), a.bin('+', a.bin('*', a.var(i), a.num(r.choice([1, 2, 3, 7]))), a.num(r.randint(0, 3))), a.var(i)))]
            if r.random() < 0.6:
                ops.append(a.expr(a.inv(x(), 'delete', [a.bin('*', a.var(i), a.num(r.choice([1, 2, 3])))])))
            k2 = r.randint(3, 12)
            return self.guard(a.forr(a.vard(i, a.num(0)), a.bin('<', a.var(i), a.num(k2)), a.asg(i, a.bin('+', a.var(i), a.num(1)), '+'), a.block(ops)), n) + [a.print(a.get(x(), 'size'))]
        else:
            if r.random() < 0.6:
                return None
            e = a.inv(x(), k)
            return self.guard(a.expr(e), n)
        return self.guard(a.print(e) if r.random() < 0.7 else a.expr(e), n)

    def s_mread(self):
        r, a = self.r, self.a
        n = self.lv('map')
        if not n:
            return None
        x = lambda: a.var(n)
        k = r.choice(['get', 'get', 'get', 'has', 'has', 'size', 'eq', 'keys', 'values', 'alias', 'print', 'each', 'map', 'probe'])
        if k == 'get':
            e = a.idx(x(), self.mkey())
        elif k == 'has':
            e = a.inv(x(), 'hasKey', [self.mkey()])
        elif k == 'size':
            e = a.get(x(), 'size')
        elif k == 'eq':
            e = a.bin(r.choice(['==', '!=']), x(), r.choice([lambda: a.var(self.lv('map')), lambda: a.inv(x(), 'dup'), lambda: a.map([self.mkey(), self.num_lit()])])())
        elif k in ('keys', 'values'):
            e = a.inv(a.inv(x(), k), 'sort') if k == 'keys' else a.inv(a.inv(x(), k), r.choice(['sort', 'sum']))
            return [a.print(e)]
        elif k == 'alias':
            m = self.fresh('m')
            gl = self.isglobal()
            self.declare(m, 'map')
            return [a.vard(m, x(), gl)]
        elif k in ('each', 'map'):
            if self.loopwork > 9:
                return None
            if r.random() < 0.5:
                return [a.print(a.inv(a.map([self.mkey(), self.num_lit()]), k, blk=self.block_lit(2)))]
            e = a.inv(x(), k, blk=self.block_lit(2))
        elif k == 'probe':
            i = self.fresh('i')
            return [a.forr(a.vard(i, a.num(0)), a.bin('<', a.var(i), a.num(8)), a.asg(i, a.bin('+', a.var(i), a.num(1)), '+'),
                           a.block([a.print(a.arr([a.var(i), a.inv(x(), 'hasKey', [a.var(i)]), a.idx(x(), a.var(i))]))]))]
        else:
            return [a.iff(a.bin('<=', a.get(x(), 'size'), a.num(1)), a.block([a.print(x())]), 0)]
        return [a.print(e)]

    def s_svar(self):
        r, a = self.r, self.a
        n = self.fresh('s')
        gl = self.isglobal()
        v = self.leaf_var('str')
        e = r.choice([lambda: a.str(r.choice(WORDS)), lambda: self.expr('str', 2), lambda: v and a.inv(v, 'dup'), lambda: v])()
        if not e:
            return None
        self.declare(n, 'str')
        return [a.vard(n, e, gl)]

    def s_smut(self):
        r, a = self.r, self.a
        n = self.lv('str')
        if not n:
            return None
        x = lambda: a.var(n)
        k = r.choice(['push', 'push', 'shovel', 'insertAt', 'set', 'padRight', 'clear'])
        w = lambda: a.str(r.choice(WORDS)) if r.random() < 0.9 else self.any_expr(0)
        if k == 'push':
            e = a.inv(x(), 'push', [w()])
        elif k == 'shovel':
            e = a.bin('<<', x(), a.str(r.choice(WORDS)))
        elif k == 'insertAt':
            e = a.inv(x(), k, [w(), a.num(r.randint(0, 6))])
        elif k == 'set':
            e = a.idxset(x(), a.num(r.randint(0, 5)), a.str(r.choice(['z', 'Y', '0'])))
        elif k == 'padRight':
            e = a.inv(x(), k, [a.num(r.randint(0, 12)), a.str(r.choice(['.', '-', 'ab', '']))])
        else:
            if r.random() < 0.6:
                return None
            e = a.inv(x(), 'clear')
        out = self.guard(a.print(e) if r.random() < 0.6 else a.expr(e), n)
        if r.random() < 0.7:
            out.append(a.print(a.arr([x(), a.get(x(), 'size')])))
        return out

    def s_sread(self):
        r, a = self.r, self.a
        n = self.lv('str')
        if not n:
            return None
        x = lambda: a.var(n)
        k = r.choice(['substr', 'idx', 'rest', 'split', 'endsWith', 'compact', 'compactLeft', 'index', 'eq', 'cat', 'mul', 'size', 'dup', 'key', 'interp'])
        w = lambda: a.str(r.choice(WORDS + ['a', 'o', 'b,'])) if r.random() < 0.92 else self.any_expr(0)
        if k == 'substr':
            e = a.inv(x(), k, [a.num(r.randint(0, 7)), a.num(r.randint(-3, 6))])
        elif k == 'idx':
            e = a.idx(x(), a.num(r.randint(0, 8)))
        elif k == 'rest':
            e = a.inv(x(), k, [a.num(r.randint(-1, 7))])
        elif k in ('split', 'endsWith', 'index'):
            e = a.inv(x(), k, [w()])
        elif k in ('compact', 'compactLeft'):
            e = a.bin('+', a.bin('+', a.str('['), a.inv(x(), k)), a.str(']'))
        elif k == 'eq':
            e = a.bin(r.choice(['==', '!=']), x(), a.var(self.lv('str')) if r.random() < 0.6 else w())
        elif k == 'cat':
            e = a.bin('+', x(), a.var(self.lv('str')) if r.random() < 0.5 else w())
        elif k == 'mul':
            e = a.bin('*', x(), a.num(r.randint(1, 4)))
        elif k == 'size':
            e = a.get(x(), 'size')
        elif k == 'key':
            e = a.idx(a.map([x(), a.num(1)]), a.var(self.lv('str')))
        elif k == 'interp':
            e = a.interp([a.str('<'), x(), a.str('|'), a.var(self.lv('str')), a.str('>')])
        else:
            m = self.fresh('s')
            gl = self.isglobal()
            self.declare(m, 'str')
            return [a.vard(m, a.inv(x(), 'dup'), gl)]
        return self.guard(a.print(e), n)

    def s_freeze(self):
        r, a = self.r, self.a
        vs = [v for v in self.visible() if v.ty in ('arr', 'map', 'str') or (isinstance(v.ty, tuple) and v.ty[0] == 'obj')]
        if not vs:
            return None
        v = r.choice(vs)
        if isinstance(v.ty, tuple) and self.pname != 'freeze':
            return None
        k = r.choice(['freeze', 'freeze', 'unfreeze', 'isFrozen', 'isFrozen'])
        c = a.inv(a.var(v.name), k)
        out = [a.print(c) if k == 'isFrozen' else a.expr(c)]
        if k == 'freeze':
            # mutations of a frozen object are errors
            x = lambda: a.var(v.name)
            m = {'arr': lambda: r.choice([lambda: a.inv(x(), 'push', [a.num(1)]), lambda: a.inv(x(), 'pop'), lambda: a.idxset(x(), a.num(0), a.num(9)), lambda: a.inv(x(), 'clear'),
                                          lambda: a.inv(x(), 'popFront'), lambda: a.inv(x(), 'pushFront', [a.num(1)]), lambda: a.inv(x(), 'delete', [a.num(1)]), lambda: a.inv(x(), 'deleteAt', [a.num(0)])])(),
                 'map': lambda: r.choice([lambda: a.idxset(x(), a.num(1), a.num(9)), lambda: a.inv(x(), 'clear'), lambda: a.inv(x(), 'delete', [a.num(1)]), lambda: a.inv(x(), 'mergeWith', [a.map([a.num(1), a.num(2)])]), lambda: a.inv(x(), 'rehash')])(),
                 'str': lambda: r.choice([lambda: a.inv(x(), 'push', [a.str('q')]), lambda: a.inv(x(), 'clear'), lambda: a.inv(x(), 'insertAt', [a.str('q'), a.num(0)]), lambda: a.inv(x(), 'padRight', [a.num(30), a.str('-')])])()}
            mk = m.get(v.ty, lambda: a.set(x(), 'v', a.num(5)))
            out.append(a.tryy(a.block([a.expr(mk())]), [self.catch_clause('Error')]))
            if v.ty in ('arr', 'str'):
                out.append(a.print(x()))
            elif v.ty == 'map':
                out.append(a.print(a.get(x(), 'size')))
            else:
                out.append(a.print(a.get(x(), 'v')))
            if r.random() < 0.5 or self.pname != 'freeze':
                out.append(a.expr(a.inv(x(), 'unfreeze')))
        return out

    def s_dup(self):
        r, a = self.r, self.a
        vs = [v for v in self.visible() if v.ty in ('arr', 'map', 'str') or (isinstance(v.ty, tuple) and v.ty[0] == 'obj')]
        if not vs:
            return None
        v = r.choice(vs)
        if isinstance(v.ty, tuple) and v.ty[1].sup and v.ty[1].sup.name == v.ty[1].name:
            return None
        n = self.fresh('d')
        gl = self.isglobal()
        self.declare(n, v.ty)
        x = lambda: a.var(n)
        out = [a.vard(n, a.inv(a.var(v.name), 'dup'), gl)]
        if isinstance(v.ty, tuple):
            out.append(a.print(a.inv(x(), 'isSame', [a.var(v.name)])))
        else:
            out.append(a.print(a.bin('==', x(), a.var(v.name))))
            out.append(a.print(a.inv(x(), 'isSame', [a.var(v.name)])))
        out.append(a.print(a.inv(x(), 'isFrozen')))
        mut = {'arr': lambda: a.inv(x(), 'push', [self.num_lit()]), 'map': lambda: a.idxset(x(), self.mkey(), self.num_lit()),
               'str': lambda: a.inv(x(), 'push', [a.str('!')])}.get(v.ty, lambda: a.set(x(), 'v', self.num_lit()))
        out.append(a.tryy(a.block([a.expr(mut())]), [self.catch_clause('Error')]))
        rd = {'arr': lambda q: a.var(q), 'str': lambda q: a.var(q), 'map': lambda q: a.get(a.var(q), 'size')}.get(v.ty, lambda q: a.get(a.var(q), 'v'))
        out += [a.print(rd(n)), a.print(rd(v.name))]
        return out

    # iteration protocol
    def s_iterclass(self):
        r, a = self.r, self.a
        if len(self.iters) >= 3:
            return None
        name = self.fresh('It')
        # counts from 1 to n with a step; iterNext returns nil at the end
        body_next = [a.expr(a.set(a.this(), 'i', a.bin('+', a.get(a.this(), 'i'), a.num(r.randint(1, 2))))),
                     a.iff(a.bin('>', a.get(a.this(), 'i'), a.get(a.this(), 'n')), a.block([a.ret(a.nil())]), 0),
                     a.ret(a.get(a.this(), 'i'))]
        init = a.fun(['n'], body=[a.expr(a.set(a.this(), 'n', a.var('n'))), a.expr(a.set(a.this(), 'i', a.num(0)))], nm='init', an=name + '#init')
        l = [a.meth('me', 'init', init), a.meth('me', 'iterNext', a.fun([], body=body_next, nm='iterNext', an=name + '#iterNext'))]
        if r.random() < 0.5:
            l.append(a.meth('me', 'iter', a.fun([], body=[a.ret(r.choice([a.this, a.nil, lambda: a.arr([a.get(a.this(), 'n'), self.pos_lit(5)]), lambda: a.arr([a.get(a.this(), 'n'), a.num(2), a.num(1)]), lambda: a.arr([]), lambda: a.map([a.num(7), a.get(a.this(), 'n')])])())], nm='iter', an=name + '#iter')))
        self.iters.append(name)
        return [a.klass(name, 0, l)]

    def s_iterloop(self):
        r, a = self.r, self.a
        if not self.iters or self.loopwork > 6 or self.infun:
            return None
        name = self.fresh('e')
        it = a.call(a.const(r.choice(self.iters)), [a.num(r.randint(1, 5))])
        self.scopes.append([])
        self.declare(name, 'num')
        b = self.loopbody(4, r.randint(1, 3))
        self.scopes.pop()
        self.a.n(b)['l'].insert(0, a.print(a.var(name)))
        return [a.foreach([name], it, b)]

    # constants
    def s_constdef(self):
        r, a = self.r, self.a
        k = r.random()
        if k < 0.4:
            n = 'K%d' % r.randint(1, 4)
            self.consts.append((n, None))
            return [a.casg(n, self.a.num(self.r.randint(0, 99)))]
        # a class or module with constants, and a nested class that sees them
        n = self.fresh('N')
        inner = self.fresh('In')
        K = 'K%d' % r.randint(1, 4)
        K2 = 'K%d' % r.randint(1, 4)
        seen = lambda: a.const(r.choice([K, K2] + [c for c, o in self.consts if o is None]))
        body = [a.casg(K, a.num(self.r.randint(0, 99)))]
        ib = [a.meth('me', 'm1', a.fun([], body=[a.ret(seen())], nm='m1', an=inner + '#m1')),
              a.meth('st', 's1', a.fun([], body=[a.ret(seen())], nm='s1', an=inner + '.s1'))]
        if r.random() < 0.6:
            ib.insert(0, a.casg(K2, a.num(self.r.randint(0, 99))))
        body.append(a.klass(inner, 0, ib))
        body.append(a.meth('me', 'm1', a.fun([], body=[a.ret(seen())], nm='m1', an=n + '#m1')))
        body.append(a.meth('st', 's1', a.fun([], body=[a.ret(seen())], nm='s1', an=n + '.s1')))
        self.consts.append((K, n))
        self.nests = getattr(self, 'nests', []) + [(n, inner)]
        return [a.klass(n, 0, body)]

    def s_constuse(self):
        r, a = self.r, self.a
        nests = getattr(self, 'nests', [])
        opts = []
        g = [c for c, o in self.consts if o is None]
        if g:
            opts.append(lambda: a.const(r.choice(g)))
        if nests:
            n, i = r.choice(nests)
            opts += [lambda: a.inv(a.call(a.const(n), []), 'm1'), lambda: a.inv(a.const(n), 's1'),
                     lambda: a.inv(a.call(a.cget(a.const(n), i), []), 'm1'), lambda: a.inv(a.cget(a.const(n), i), 's1'),
                     lambda: a.cget(a.const(n), r.choice([K for K, o in self.consts if o == n] or [i])), lambda: a.cget(a.const(n), i), lambda: a.call(a.cget(a.const(n), i), [])]
        if not opts:
            return None
        e = a.print(r.choice(opts)())
        return [a.tryy(a.block([e]), [self.catch_clause('Error')])]

    def guard_top(self, l):
        """wrap top-level statements in try, so that an error doesn't end the program"""
        p = self.r.choice([0.5, 0.95, 1.0])
        out = []
        for i in l:
            t = self.a.n(i)['t']
            if t in ('expr', 'print', 'if', 'for', 'while', 'foreach', 'throw') and self.r.random() < p:
                x, a = self.fresh('x'), self.a
                i = a.tryy(a.block([i]), [[a.const('Error'), x, a.block([a.print(a.get(a.var(x), 'class')), a.print(a.get(a.var(x), 'message'))])]])
            out.append(i)
        return out

    def build(self):
        l = []
        r = self.r
        # start with what the profile needs
        pre = {'scope': ['var', 'var'], 'args': ['var', 'pfun', 'pfun'], 'oo': ['klass', 'module', 'klass'], 'block': ['yfun', 'var', 'yfun'],
               'array': ['avar', 'avar'], 'map': ['mapvar', 'mapvar'], 'string': ['svar', 'svar'], 'iter': ['iterclass', 'var', 'avar'],
               'freeze': ['avar', 'mapvar', 'svar', 'klass'], 'mix': ['var', 'avar', 'svar', 'fdef'], 'exc': ['var', 'fdef'], 'expr': ['var', 'var'],
               'loop': ['var', 'var'], 'const': ['constdef', 'constdef']}[self.pname]
        for k in pre:
            l += getattr(self, 's_' + k)() or []
        while len(l) < self.size:
            l += self.stmt()
        l = self.guard_top(l)
        nv = [v for v in self.visible() if v.ty in ('num', 'str', 'bool', 'arr')]
        l.append(self.a.print(self.a.arr([self.a.var(v.name) for v in nv[:12]])))
        return self.a.top(l)


def generate(seed, profile, pid, size=None):
    if profile.startswith('@'):
        text = loxlabs.LABS[profile[1:]](random.Random('%s/%s' % (seed, profile)))
        return loxparse.parse(text, pid), text, set()
    r = random.Random('%s/%s' % (seed, profile))
    g = Gen('%s/%s/g' % (seed, profile), profile, size or r.choice([10, 16, 24]))
    root = g.build()
    prog, text = program(g.a, root, pid, r)
    return prog, text, g.feats
