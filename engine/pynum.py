"""Numerical Python functions over arrays of symbolic size: numpy values are element functions over the value graph, draws of
a random generator are fresh arrays, loops over a symbolic range are summarised by what they write at each step."""
import ast
from fractions import Fraction
from expr import *
from values import mkarr, merge, Arr, canon, reify
import pyint as P
from pyint import V, Const, Term, Stuck, PyRaise, Exc, NONE, Ext, isext


class SV(V):
    """a number: its expression; kind 'int' | 'float'"""
    def __init__(self, e, kind):
        self.e, self.kind = e, kind

    def __repr__(self):
        return show(self.e)


class CV(V):
    """a truth value given by an expression"""
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return show(self.e)


class Range(V):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Gen(V):
    """a random generator and what it was made from"""
    n = 0

    def __init__(self, src):
        self.src = src
        Gen.n += 1
        self.id = Gen.n

    def __repr__(self):
        return 'generator from %s' % (self.src,)


class ABuf:
    def __init__(self, arr, who=None):
        self.arr, self.who, self.written = arr, who, []


class NA(V):
    """an array: memory and, for a view, the map from its indices to those of the memory"""
    def __init__(self, buf, shape=None, fwd=None, via=None):
        self.buf, self.fwd = buf, fwd
        self.via = via                  # a view: the array it was taken from and the index
        self.shape = tuple(shape if shape is not None else buf.arr.shape)

    def at(self, *i):
        return self.buf.arr.at(*(self.fwd(*i) if self.fwd else i))

    def arr(self):
        return mkarr(self.shape, lambda *i: self.at(*i))

    def __repr__(self):
        return 'array(%s)' % ', '.join(show(s) for s in self.shape)


class MoreChoices(Exception):
    pass


FULL = ('all',)
UNIFORM = {'rand', 'random_sample', 'random', 'uniform', 'randint', 'integers', 'ranf', 'exponential', 'laplace', 'binomial', 'poisson', 'standard_cauchy',
           'standard_t', 'beta', 'gamma', 'multivariate_normal', 'lognormal'}


class NInterp(P.Interp):
    def __init__(self, prog, choices=(), oracle=None, fuel=400000):
        super().__init__(prog, choices, oracle, fuel)
        self.bufs, self.simp, self.draws, self.loops, self.defs = [], {}, {}, [], {}
        self.inner = None               # choices of the loop body being summarised
        self.conds = []                 # (expression, outcome)

    # ------------------------------------------------------------ helpers
    def new(self, shape, f, who=None):
        return self.wrap(mkarr(tuple(shape), f), who)

    def wrap(self, arr, who=None):
        b = ABuf(arr, who)
        self.bufs.append(b)
        return NA(b)

    def ex(self, v):
        if isinstance(v, SV):
            return v.e
        if isinstance(v, CV):
            return sel(v.e, ONE, ZERO)
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            if v.v != v.v:
                return NAN
            if v.v in (float('inf'), float('-inf')):
                return INF if v.v > 0 else NINF
            return num(Fraction(str(v.v)) if isinstance(v.v, float) else int(v.v))
        if isext(v, 'numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.infty', 'numpy.PINF'):
            return INF
        return None

    def kind(self, v):
        return v.kind if isinstance(v, SV) else 'float' if isinstance(v, Const) and isinstance(v.v, float) or isinstance(v, Term) else 'int'

    def dimeq(self, a, b):
        a, b = subst(a, self.simp), subst(b, self.simp)
        return a is b or expand(sub(a, b)) is ZERO

    def one(self, a):
        return subst(a, self.simp) is ONE

    def size(self, v):
        """a shape argument"""
        if isinstance(v, Term) and v.op == 'nshape':
            return tuple(v.args[0])
        if isinstance(v, P.Seq):
            r = [self.ex(x) for x in v.xs]
        else:
            r = [self.ex(v)]
        if any(x is None for x in r):
            raise Stuck('shape %r' % (v,))
        return tuple(r)

    def tyname(self, v):
        if isinstance(v, SV):
            return v.kind
        if isinstance(v, NA):
            return 'numpy.ndarray'
        return super().tyname(v)

    def isinstance_(self, v, t):
        if isinstance(v, NA) and isinstance(t, Term) and t.op == 'ext':
            return Const(t.args[0] in ('numpy.ndarray', 'object'))
        return super().isinstance_(v, t)

    # ------------------------------------------------------------ conditions
    def truth(self, v):
        if isinstance(v, CV):
            e = subst(v.e, self.simp)
            if e is TRUE or e is FALSE:
                return e is TRUE
            flip = e.op == 'not'
            if flip:
                e = e.args[0]
            for c, r in self.conds:
                if c is e:
                    return r != flip
            loc = self.inner is not None and any(x in self.inner['syms'] for x in free(e))
            if loc:
                for c, r in self.inner['conds']:
                    if c is e:
                        return r != flip
                k = len(self.inner['conds'])
                r = self.inner['choices'][k] if k < len(self.inner['choices']) else True
                self.inner['conds'].append((e, r))
                return r != flip
            n = len(self.taken)
            r = self.choices[n] if n < len(self.choices) else True
            self.taken.append(r)
            self.pc.append((Term('cond', Const(show(e))), r))
            self.conds.append((e, r))
            if r and e.op in ('eq', 'feq'):
                for a, b in (e.args, e.args[::-1]):
                    if a.op == 'sym' and a.args[1] == 'N' and b.op == 'num':
                        self.simp[a] = b
                        break
            return r != flip
        if isinstance(v, SV):
            return self.truth(CV(not_(feq(v.e, ZERO)) if v.kind == 'float' else not_(ieq(v.e, ZERO))))
        if isinstance(v, NA):
            raise Stuck('truth value of an array')
        if isinstance(v, (Gen, Range)):
            return True
        if self.inner is not None and not isinstance(v, (Const, P.Num)):
            raise Stuck('condition %r in a loop' % (v,))
        return super().truth(v)

    def cmp(self, op, a, b):
        if isinstance(a, (SV, CV)) or isinstance(b, (SV, CV)):
            x, y = self.ex(a), self.ex(b)
            if op in ('is', 'isnot'):
                return Const(op == 'isnot')
            if x is not None and y is not None and op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
                ints = self.kind(a) == 'int' and self.kind(b) == 'int' and x.op not in ('inf', 'ninf') and y.op not in ('inf', 'ninf')
                if op in ('gt', 'ge'):
                    x, y, op = y, x, {'gt': 'lt', 'ge': 'le'}[op]
                if op in ('eq', 'ne'):
                    c = ieq(x, y) if ints else feq(x, y)
                    return CV(not_(c) if op == 'ne' else c)
                return CV((ilt if op == 'lt' else ile)(x, y) if ints else (flt if op == 'lt' else fle)(x, y))
            if op in ('in', 'notin'):
                return super().cmp(op, a, b)
            raise Stuck('comparison of %r and %r' % (a, b))
        if isinstance(a, (NA, Gen)) or isinstance(b, (NA, Gen)):
            if op in ('is', 'isnot'):
                return Const((a is b) == (op == 'is'))
            raise Stuck('comparison of %r and %r' % (a, b))
        return super().cmp(op, a, b)

    def neg(self, v):
        return CV(not_(v.e)) if isinstance(v, CV) else super().neg(v)

    # ------------------------------------------------------------ arithmetic
    def scalar(self, op, a, b, ints=False):
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            return mul(a, b)
        if op == 'Div':
            return div(a, b)
        if op == 'Pow':
            if b.op == 'num':
                v = val(b)
                if v.denominator == 1 and 0 <= v <= 8:
                    return powi(a, b)
                if v == Fraction(1, 2):
                    return fsqrt(a)
                if v == Fraction(-1, 2):
                    return div(ONE, fsqrt(a))
                if v.denominator == 1 and -8 <= v < 0:
                    return div(ONE, powi(a, num(-v)))
            return mk('powf', a, b)
        if op == 'FloorDiv' and ints:
            return idiv(a, b)
        if op == 'Mod' and ints:
            return imod(a, b)
        if op == 'FloorDiv':
            return floor_(div(a, b))
        raise Stuck('operator %s' % op)

    def bshape(self, s, t):
        """the broadcast of two shapes; for each operand the dimensions it repeats along"""
        k = max(len(s), len(t))
        s2, t2 = (ONE,) * (k - len(s)) + tuple(s), (ONE,) * (k - len(t)) + tuple(t)
        out = []
        for a, b in zip(s2, t2):
            if self.dimeq(a, b):
                out.append(a)
            elif self.one(a):
                out.append(b)
            elif self.one(b):
                out.append(a)
            else:
                if subst(a, self.simp).op == 'num' and subst(b, self.simp).op == 'num':
                    raise PyRaise(Exc('ValueError'))
                raise Stuck('shapes %s and %s' % (show(a), show(b)))
        return tuple(out)

    def reader(self, v, out):
        """v read at an index of the broadcast shape"""
        k = len(out) - len(v.shape)

        def f(*i):
            i = i[k:]
            return v.at(*[ZERO if self.one(s) and not self.one(o) else x for s, o, x in zip(v.shape, out[k:], i)])
        return f

    def arith(self, op, a, b):
        x, y = self.ex(a), self.ex(b)
        if isinstance(a, NA) and isinstance(b, NA):
            out = self.bshape(a.shape, b.shape)
            f, g = self.reader(a, out), self.reader(b, out)
            return self.new(out, lambda *i: self.scalar(op, f(*i), g(*i)))
        if isinstance(a, NA) and y is not None:
            return self.new(a.shape, lambda *i: self.scalar(op, a.at(*i), y))
        if isinstance(b, NA) and x is not None:
            return self.new(b.shape, lambda *i: self.scalar(op, x, b.at(*i)))
        if x is not None and y is not None:
            ints = self.kind(a) == 'int' and self.kind(b) == 'int'
            k = 'float' if op == 'Div' or not ints else 'int'
            return SV(self.scalar(op, x, y, ints), k)
        raise Stuck('%s on %r and %r' % (op, a, b))

    def binop(self, op, a, b):
        if isinstance(a, (NA, SV)) or isinstance(b, (NA, SV)):
            if op == 'Mod' and isinstance(a, Const) and isinstance(a.v, str):
                return Term('str', a)
            if op == 'MatMult':
                return self.matmul(a, b)
            return self.arith(op, a, b)
        return super().binop(op, a, b)

    def matmul(self, a, b):
        if not (isinstance(a, NA) and isinstance(b, NA)):
            raise Stuck('product of %r and %r' % (a, b))
        ra, rb = len(a.shape), len(b.shape)
        if ra not in (1, 2) or rb not in (1, 2):
            raise Stuck('product of ranks %d and %d' % (ra, rb))
        k, k2 = a.shape[-1], b.shape[0]
        if not self.dimeq(k, k2):
            if subst(k, self.simp).op == 'num' and subst(k2, self.simp).op == 'num':
                raise PyRaise(Exc('ValueError'))
            raise Stuck('product over %s and %s' % (show(k), show(k2)))
        out = a.shape[:-1] + b.shape[1:]

        def f(*i):
            q = bvar(k, 'k')
            x = a.at(*i[:1], q) if ra == 2 else a.at(q)
            y = b.at(q, *i[ra - 1:]) if rb == 2 else b.at(q)
            return sum_(q, k, mul(x, y))
        return self.new(out, f) if out else SV(f(), 'float')

    def ev_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(v, (SV, NA)) and isinstance(e.op, ast.USub):
            return self.arith('Mult', v, Const(-1))
        if isinstance(v, (SV, NA)) and isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, CV) and isinstance(e.op, ast.Not):
            return self.neg(v)
        if isinstance(e.op, ast.Not):
            return Const(not self.truth(v))
        if isinstance(e.op, ast.USub) and self.num(v):
            return super().ev_UnaryOp(ast.UnaryOp(op=e.op, operand=e.operand), env, mod) if not isinstance(v, Const) else Const(-v.v)
        if isext(v, 'numpy.inf', 'math.inf') and isinstance(e.op, ast.USub):
            return Const(float('-inf'))
        raise Stuck('unary operator on %r' % (v,))

    # ------------------------------------------------------------ indexing
    def comps(self, v, i):
        """one component per dimension of v: FULL | ('int', e) | ('slice', lo, hi) | ('ix', array of integers); None for a new axis"""
        xs = list(i.xs) if isinstance(i, P.Seq) and i.kind == 'tuple' else [i]
        out = []
        newax = [x for x in xs if isinstance(x, Const) and x.v is None or isext(x, 'numpy.newaxis')]
        n = len(v.shape) - (len(xs) - len(newax))
        if any(isinstance(x, Const) and x.v is Ellipsis for x in xs):
            n += 1
        k = 0
        for x in xs:
            if isinstance(x, Const) and x.v is None or isext(x, 'numpy.newaxis'):
                out.append(None)
            elif isinstance(x, Const) and x.v is Ellipsis:
                out += [FULL] * n
                k += n
                n = 0
            else:
                if k >= len(v.shape):
                    raise PyRaise(Exc('IndexError'))
                d = v.shape[k]
                k += 1
                if isinstance(x, Term) and x.op == 'slice':
                    lo, hi, st = x.args
                    if not (isinstance(st, Const) and st.v in (None, 1)):
                        raise Stuck('slice step')
                    if all(isinstance(y, Const) and y.v is None for y in (lo, hi)):
                        out.append(FULL)
                        continue
                    a = ZERO if isinstance(lo, Const) and lo.v is None else self.ex(lo)
                    b = d if isinstance(hi, Const) and hi.v is None else self.ex(hi)
                    if a is None or b is None:
                        raise Stuck('slice bounds')
                    a, b = [add(d, y) if y.op == 'num' and val(y) < 0 else y for y in (a, b)]
                    out.append(('slice', a, b))
                elif isinstance(x, NA) and len(x.shape) == 1 and x.buf.who == 'ints':
                    out.append(('ix', x))
                else:
                    y = self.ex(x)
                    if y is None or self.kind(x) != 'int' or isinstance(x, CV):
                        raise Stuck('index %r' % (x,))
                    out.append(('int', add(d, y) if y.op == 'num' and val(y) < 0 else y))
        out += [FULL] * max(0, n)
        return out

    def getitem(self, v, i):
        if isinstance(v, NA):
            cs = self.comps(v, i)
            if sum(1 for c in cs if c and c[0] == 'ix') > 1:
                raise Stuck('two index arrays')
            shape_, k = [], 0
            for c in cs:
                if c is None:
                    shape_.append(ONE)
                    continue
                if c is FULL:
                    shape_.append(v.shape[k])
                elif c[0] == 'slice':
                    shape_.append(sub(c[2], c[1]))
                elif c[0] == 'ix':
                    shape_.append(c[1].shape[0])
                k += 1

            def base(*ix):
                ix, out = list(ix), []
                for c in cs:
                    if c is None:
                        ix.pop(0)
                    elif c[0] == 'int':
                        out.append(c[1])
                    else:
                        x = ix.pop(0)
                        out.append(x if c is FULL else add(c[1], x) if c[0] == 'slice' else c[1].at(x))
                return tuple(out)
            if not shape_:
                return SV(v.at(*base()), 'int' if v.buf.who == 'ints' else 'float')
            if any(c and c[0] == 'ix' for c in cs):
                r = self.new(shape_, lambda *ix: v.at(*base(*ix)))
            else:
                f = v.fwd
                r = NA(v.buf, shape_, (lambda *ix: f(*base(*ix))) if f else base, None if f or None in cs else (v, i))
            return r
        if isinstance(v, P.Seq) and isinstance(i, SV):
            raise Stuck('item of a list')
        if isinstance(v, Term) and v.op == 'nshape' and isinstance(i, Const) and isinstance(i.v, int):
            s = v.args[0]
            if -len(s) <= i.v < len(s):
                return SV(s[i.v], 'int')
            raise PyRaise(Exc('IndexError'))
        return super().getitem(v, i)

    def store(self, buf, cond, value):
        old = buf.arr
        buf.arr = mkarr(old.shape, lambda *i: sel(cond(*i), value(*i), old.at(*i)))

    def setitem(self, o, i, v):
        if not isinstance(o, NA):
            if isinstance(v, (SV, NA)) and self.inner is not None:
                raise Stuck('item assignment in a loop')
            return super().setitem(o, i, v)
        cs = [c for c in self.comps(o, i)]
        if o.fwd and o.via and all(c is FULL for c in cs):
            x = self.ex(v)
            self.setitem(o.via[0], o.via[1], v if x is not None else NA(ABuf(mkarr(o.shape, self.reader(v, o.shape)))))
            return
        if o.fwd:
            raise Stuck('assignment through a view')
        if None in cs:
            raise Stuck('new axis in an assignment')
        ixs = [c for c in cs if c[0] == 'ix']
        if len(ixs) > 1:
            raise Stuck('two index arrays')
        tgt = [o.shape[k] if c is FULL else sub(c[2], c[1]) if c[0] == 'slice' else c[1].shape[0] for k, c in enumerate(cs) if c[0] != 'int']
        x = self.ex(v)
        if x is not None:
            get = lambda *ix: x
        elif isinstance(v, NA):
            s = self.bshape(v.shape, tgt)
            if len(s) != len(tgt) or not all(self.dimeq(a, b) for a, b in zip(s, tgt)):
                raise PyRaise(Exc('ValueError'))
            src = NA(ABuf(v.arr()))         # the right side is read before the store
            get = self.reader(src, tuple(tgt))
        else:
            raise Stuck('assignment of %r' % (v,))
        o.buf.written.append(tuple(c if c[0] != 'ix' else ('ix',) for c in cs))
        if ixs:
            K = ixs[0][1].shape[0]
            S = ixs[0][1]

            def cond(*i):
                q = bvar(K, 'q')
                return and_(*[ieq(p, c[1]) for p, c in zip(i, cs) if c[0] == 'int'],
                            *[and_(ile(c[1], p), ilt(p, c[2])) for p, c in zip(i, cs) if c[0] == 'slice'],
                            *[any_(q, K, ieq(S.at(q), p)) for p, c in zip(i, cs) if c[0] == 'ix'])

            def value(*i):
                q = bvar(K, 'q')
                ix, hit = [], None
                for p, c in zip(i, cs):
                    if c[0] == 'ix':
                        hit = ieq(S.at(q), p)
                        ix.append(q)
                    elif c[0] != 'int':
                        ix.append(p if c is FULL else sub(p, c[1]))
                # (the positions are distinct: at most one of them is this row)
                return sum_(q, K, sel(hit, get(*ix), ZERO))
        else:
            def cond(*i):
                return and_(*[ieq(p, c[1]) for p, c in zip(i, cs) if c[0] == 'int'],
                            *[and_(ile(c[1], p), ilt(p, c[2])) for p, c in zip(i, cs) if c[0] == 'slice'])

            def value(*i):
                return get(*[p if c is FULL else sub(p, c[1]) for p, c in zip(i, cs) if c[0] != 'int'])
        self.store(o.buf, cond, value)

    def st_AugAssign(self, s, env, mod):
        t, op = s.target, type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env, mod)
            if isinstance(old, NA):
                self.inplace(old, op, self.ev(s.value, env, mod))
                return
            if isinstance(old, (SV, Const)):
                self.assign(t, self.binop(op, old, self.ev(s.value, env, mod)), env, mod)
                return
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            if isinstance(o, NA):
                i = self.index(t.slice, env, mod)
                v = self.ev(s.value, env, mod)
                self.setitem(o, i, self.binop(op, self.getitem(o, i), v))
                return
        super().st_AugAssign(s, env, mod)

    def inplace(self, old, op, v):
        r = self.binop(op, old, v)
        if not isinstance(r, NA) or len(r.shape) != len(old.shape) or not all(self.dimeq(a, b) for a, b in zip(r.shape, old.shape)):
            raise PyRaise(Exc('ValueError'))
        if old.fwd and old.via:
            self.setitem(old.via[0], old.via[1], r)
            return
        if old.fwd:
            raise Stuck('a view is changed in place')
        old.buf.written.append((FULL,) * len(old.shape))
        old.buf.arr = r.buf.arr

    # ------------------------------------------------------------ attributes and calls
    def getattr_(self, v, name):
        if isinstance(v, NA):
            if name == 'T':
                f = v.fwd
                return NA(v.buf, v.shape[::-1], (lambda *i: f(*i[::-1])) if f else (lambda *i: i[::-1]))
            if name == 'shape':
                return Term('nshape', v.shape)
            if name == 'ndim':
                return Const(len(v.shape))
            if name == 'size':
                return SV(mul(*v.shape), 'int')
            if name == 'dtype':
                return Term('dtype', 'float64')
            if name in ('flags',):
                return Term('attr', v, name)
            return Term('nameth', v, name)
        if isinstance(v, Gen):
            return Term('gmeth', v, name)
        if isinstance(v, (SV, CV)):
            raise Stuck('attribute of a number')
        return super().getattr_(v, name)

    def iter(self, v):
        if isinstance(v, Term) and v.op == 'nshape':
            return [SV(s, 'int') for s in v.args[0]]
        if isinstance(v, (Range, NA)):
            raise Stuck('iteration over %r' % (v,))
        return super().iter(v)

    def assign(self, t, v, env, mod):
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, Term) and v.op == 'nshape':
            v = P.Seq('tuple', self.iter(v))
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, NA):
            raise Stuck('unpacking an array')
        super().assign(t, v, env, mod)

    def spread(self, elts, env, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iter(self.ev(x.value, env, mod))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def call(self, f, args, kw, node):
        if isinstance(f, Term) and f.op == 'nameth':
            return self.array_method(f.args[0], f.args[1], args, kw)
        if isinstance(f, Term) and f.op == 'gmeth':
            return self.random(f.args[0], f.args[1], args, kw)
        return super().call(f, args, kw, node)

    def draw(self, gen, kind, shape_, **info):
        D = fresh('draw', 'A', esort=info.pop('esort', 'R'))
        SYM_INFO[D]['shape'] = tuple(hi for _, hi in self.loops) + tuple(shape_)
        SYM_INFO[D].update({k: v for k, v in info.items() if k == 'emax'})
        pre = [j for j, _ in self.loops]
        self.draws[D] = dict(kind=kind, gen=gen, shape=tuple(shape_), loops=len(pre), **info)
        g = lambda *i: elem(D, *pre, *i)
        if not shape_:
            return SV(g(), 'float')
        return self.new(shape_, g)

    def random(self, gen, name, args, kw):
        def arg(i, n, d=None):
            return args[i] if len(args) > i else kw.get(n, d)
        if name in ('randn',):
            return self.draw(gen, 'normal', [self.need(a) for a in args])
        if name in ('standard_normal', 'normal'):
            sz = arg(0 if name == 'standard_normal' else 2, 'size')
            sh = () if sz is None or isinstance(sz, Const) and sz.v is None else self.size(sz)
            d = self.draw(gen, 'normal', sh)
            if name == 'normal':
                loc, sc = arg(0, 'loc', Const(0.0)), arg(1, 'scale', Const(1.0))
                d = self.binop('Add', self.binop('Mult', d, sc), loc)
            return d
        if name in ('choice', 'permutation'):
            n = self.ex(arg(0, 'a' if name == 'choice' else 'x'))
            if n is None:
                raise Stuck('choice from %r' % (arg(0, 'a'),))
            if name == 'permutation':
                m, rep = n, False
            else:
                sz = arg(1, 'size')
                if sz is None or isinstance(sz, Const) and sz.v is None:
                    raise Stuck('choice of one')
                (m,) = self.size(sz) if len(self.size(sz)) == 1 else (None,)
                if m is None or arg(3, 'p') is not None:
                    raise Stuck('choice')
                r = arg(2, 'replace', Const(True))
                rep = self.truth(r)
            d = self.draw(gen, 'choice', [m], esort='N', emax=n, population=n, replace=rep)
            d.buf.who = 'ints'
            return d
        if name in UNIFORM:
            sz = kw.get('size') or (args[-1] if args else None)
            if name == 'rand':
                return self.draw(gen, name, [self.need(a) for a in args])
            if sz is None:
                raise Stuck(name)
            return self.draw(gen, name, self.size(sz))
        raise Stuck('random generator method %s' % name)

    def need(self, v):
        e = self.ex(v)
        if e is None:
            raise Stuck('size %r' % (v,))
        return e

    def copy_of(self, v):
        r = self.wrap(v.arr(), v.buf.who)
        return r

    def flat(self, v):
        s = [subst(x, self.simp) for x in v.shape]
        if len(s) == 1:
            return self.copy_of(v)
        keep = [k for k, x in enumerate(s) if x is not ONE]
        if len(keep) <= 1:
            k = keep[0] if keep else 0
            return self.new([s[k]], lambda i: v.at(*[i if q == k else ZERO for q in range(len(s))]))
        if len(s) == 2:
            return self.new([mul(*s)], lambda i: v.at(idiv(i, s[1]), imod(i, s[1])))
        raise Stuck('flatten')

    def reduce(self, v, kind, axis, absolute=False):
        """sum | max | min | norm over one axis or all"""
        r = len(v.shape)
        if axis is None or isinstance(axis, Const) and axis.v is None:
            ax = list(range(r))
        elif isinstance(axis, Const) and isinstance(axis.v, int):
            ax = [axis.v % r]
        else:
            raise Stuck('axis')
        rest = [k for k in range(r) if k not in ax]

        def f(*i):
            bs = {k: bvar(v.shape[k], 'r') for k in ax}
            ix = dict(zip(rest, i))
            x = v.at(*[bs.get(k, ix.get(k)) for k in range(r)])
            if kind == 'norm':
                x = mul(x, x)
            for k in reversed(ax):
                x = sum_(bs[k], v.shape[k], x) if kind in ('sum', 'norm', 'mean') else red('maxr' if kind == 'max' else 'minr', bs[k], v.shape[k], x, NINF if kind == 'max' else INF)
            if kind == 'mean':
                x = div(x, mul(*[v.shape[k] for k in ax]))
            return fsqrt(x) if kind == 'norm' else x
        return SV(f(), 'float') if not rest else self.new([v.shape[k] for k in rest], f)

    def variance(self, v, ax):
        m = self.reduce(v, 'mean', ax)
        noax = ax is None or isinstance(ax, Const) and ax.v is None
        if not noax:
            raise Stuck('variance along an axis')
        d = self.new(v.shape, lambda *i: mul(sub(v.at(*i), m.e), sub(v.at(*i), m.e)))
        return self.reduce(d, 'mean', ax)

    def array_method(self, v, n, args, kw):
        if kw.get('out') is not None:
            raise Stuck('out=')
        if n in ('var', 'std') and not set(kw) - {'axis'} and len(args) < 2:
            r = self.variance(v, args[0] if args else kw.get('axis'))
            return SV(fsqrt(r.e), 'float') if n == 'std' else r
        if n == 'clip' and len(args) == 2 and not kw:
            return self.ext_call('numpy.clip', [v] + list(args), {}, None)
        if n in ('flatten', 'ravel') and not (args and not (isinstance(args[0], Const) and args[0].v == 'C')) and not kw:
            return self.flat(v)
        if n in ('flatten', 'ravel') and len([s for s in v.shape if not self.one(s)]) <= 1:
            return self.flat(v)
        if n == 'reshape' and len(args) == 1 and isinstance(args[0], Const) and args[0].v == -1:
            return self.flat(v)
        if n == 'reshape' and not kw:
            sh = args[0].xs if len(args) == 1 and isinstance(args[0], P.Seq) else args
            if len(v.shape) == 1 and len(sh) == 2 and isinstance(sh[1], Const) and sh[1].v == 1:
                return self.new([v.shape[0], ONE], lambda i, t: v.at(i))
            raise Stuck('reshape')
        if n == 'squeeze' and not args and not kw:
            keep = [k for k, s in enumerate(v.shape) if not self.one(s)]
            if any(subst(v.shape[k], self.simp).op != 'num' and val_min(subst(v.shape[k], self.simp)) < 2 for k in keep):
                raise Stuck('squeeze of an unknown shape')
            return self.new([v.shape[k] for k in keep], lambda *i: v.at(*[i[keep.index(k)] if k in keep else ZERO for k in range(len(v.shape))]))
        if n == 'copy':
            return self.copy_of(v)
        if n == 'astype':
            dt = self.dtype_of(args[0]) if args else None
            if dt == 'float64':
                return self.copy_of(v)
            raise Stuck('astype')
        if n in ('sum', 'max', 'min', 'mean'):
            ax = args[0] if args else kw.get('axis')
            if set(kw) - {'axis'}:
                raise Stuck('%s with keywords' % n)
            return self.reduce(v, n, ax)
        if n == 'dot' and len(args) == 1:
            return self.matmul(v, args[0])
        if n == 'transpose' and not args:
            return self.getattr_(v, 'T')
        if n == 'fill' and len(args) == 1 and not v.fwd:
            x = self.need(args[0])
            v.buf.written.append((FULL,) * len(v.shape))
            v.buf.arr = mkarr(v.shape, lambda *i: x)
            return NONE
        raise Stuck('array method %s' % n)

    def ext_call(self, path, args, kw, node):
        def arg(i, name, d=None):
            return args[i] if len(args) > i else kw.get(name, d)
        last = path.split('.')[-1]
        if kw.get('out') is not None and isinstance(kw['out'], NA) and not kw['out'].fwd and path.startswith('numpy.') and len(kw) == 1:
            o = kw['out']
            r = self.ext_call(path, args, {}, node)
            if not isinstance(r, NA) or len(r.shape) != len(o.shape) or not all(self.dimeq(a, b) for a, b in zip(r.shape, o.shape)):
                raise PyRaise(Exc('ValueError'))
            o.buf.written.append((FULL,) * len(o.shape))
            o.buf.arr = r.arr()
            return o
        if kw.get('out') is not None:
            raise Stuck('out=')
        if path in ('sklearn.utils.check_random_state', 'sklearn.utils.validation.check_random_state'):
            if isinstance(args[0], Gen):
                return args[0]
            return Gen(('seeded', P.vkey(args[0])))
        if path in ('numpy.random.RandomState', 'numpy.random.default_rng'):
            raise Stuck(path)
        if path.startswith('numpy.random.'):
            if last == 'seed':
                raise Stuck('the global generator is seeded')
            if last in UNIFORM or last in ('randn', 'normal', 'standard_normal', 'choice', 'permutation'):
                return self.random(Gen(('global',)), last, args, kw)
            raise Stuck(path)
        a0 = args[0] if args else kw.get('a', kw.get('x'))
        if path.startswith('numpy.') or path.startswith('math.') or path.startswith('scipy.linalg.'):
            if last in ('zeros', 'ones', 'empty', 'full') and set(kw) <= {'shape', 'dtype', 'order', 'fill_value'}:
                sh = self.size(arg(0, 'shape'))
                if last == 'empty':
                    U = fresh('uninitialised', 'A', esort='R')
                    SYM_INFO[U]['shape'] = sh
                    SYM_INFO[U]['undef'] = True
                    return self.new(sh, lambda *i: elem(U, *i))
                v = ZERO if last == 'zeros' else ONE if last == 'ones' else self.need(arg(1, 'fill_value'))
                return self.new(sh, lambda *i: v)
            if last in ('zeros_like', 'ones_like', 'empty_like') and isinstance(a0, NA):
                return self.ext_call('numpy.' + last[:-5], [P.Seq('tuple', [SV(s, 'int') for s in a0.shape])], {}, node)
            if last in ('sqrt', 'abs', 'absolute', 'fabs', 'square', 'negative') and len(args) == 1:
                g = {'sqrt': fsqrt, 'abs': fabs, 'absolute': fabs, 'fabs': fabs, 'square': lambda x: mul(x, x), 'negative': lambda x: neg(x)}[last]
                if isinstance(a0, NA):
                    return self.new(a0.shape, lambda *i: g(a0.at(*i)))
                x = self.ex(a0)
                if x is not None:
                    return SV(g(x), 'float')
            if last in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power') and len(args) == 2:
                return self.binop({'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow'}[last], *args)
            if path == 'math.pow' and len(args) == 2:
                return self.binop('Pow', *args)
            if path in ('numpy.linalg.norm', 'scipy.linalg.norm') and isinstance(a0, NA):
                o = arg(1, 'ord')
                ax = arg(2, 'axis')
                if set(kw) - {'axis', 'ord'}:
                    raise Stuck('norm with keywords')
                noax = ax is None or isinstance(ax, Const) and ax.v is None
                if o is None or isinstance(o, Const) and (o.v is None or o.v == 'fro' and noax and len(a0.shape) == 2 or
                                                         o.v == 2 and (not noax or len(a0.shape) == 1)):
                    return self.reduce(a0, 'norm', ax)
                inf_ = self.ex(o)
                if inf_ is INF and (len(a0.shape) == 1 or not noax):
                    return self.reduce(self.ext_call('numpy.abs', [a0], {}, node), 'max', ax)
                if isinstance(o, Const) and o.v == 1 and not isinstance(o.v, bool) and (len(a0.shape) == 1 or not noax):
                    return self.reduce(self.ext_call('numpy.abs', [a0], {}, node), 'sum', ax)
                raise Stuck('norm of order %r' % (o,))
            if last in ('var', 'std') and isinstance(a0, NA) and not set(kw) - {'axis'} and len(args) < 3:
                return self.array_method(a0, last, args[1:], kw)
            if last == 'sign' and len(args) == 1:
                g = lambda x: sel(flt(ZERO, x), ONE, sel(flt(x, ZERO), num(-1), ZERO))
                if isinstance(a0, NA):
                    return self.new(a0.shape, lambda *i: g(a0.at(*i)))
                if self.ex(a0) is not None:
                    return SV(g(self.ex(a0)), 'float')
            if last == 'clip' and len(args) == 3 and isinstance(a0, NA) and self.ex(args[1]) is not None and self.ex(args[2]) is not None:
                lo, hi = self.ex(args[1]), self.ex(args[2])
                return self.new(a0.shape, lambda *i: fmin(fmax(a0.at(*i), lo), hi))
            if last in ('column_stack', 'stack', 'vstack', 'array', 'transpose') and isinstance(a0, P.Seq) and a0.xs and all(isinstance(x, NA) and len(x.shape) == 1 for x in a0.xs):
                xs = a0.xs
                ax = arg(1, 'axis', Const(0)) if last == 'stack' else Const(1 if last in ('column_stack', 'transpose') else 0)
                if not all(self.dimeq(x.shape[0], xs[0].shape[0]) for x in xs) or not isinstance(ax, Const) or ax.v not in (0, 1, -1):
                    raise Stuck(path)

                def pick(k, i):
                    r = xs[-1].at(i)
                    for q in range(len(xs) - 2, -1, -1):
                        r = sel(ieq(k, num(q)), xs[q].at(i), r)
                    return r
                if ax.v == 0:
                    return self.new([num(len(xs)), xs[0].shape[0]], lambda k, i: pick(k, i))
                return self.new([xs[0].shape[0], num(len(xs))], lambda i, k: pick(k, i))
            if last == 'where' and len(args) == 3:
                raise Stuck('where')
            if last == 'arange' and len(args) == 1 and not kw and self.ex(a0) is not None and self.kind(a0) == 'int':
                r = self.new([self.ex(a0)], lambda i: i, 'ints')
                return r
            if last in ('sum', 'max', 'min', 'amax', 'amin', 'mean') and isinstance(a0, NA):
                if set(kw) - {'axis', 'a'}:
                    raise Stuck('%s with keywords' % last)
                return self.reduce(a0, last.replace('amax', 'max').replace('amin', 'min'), arg(1, 'axis'))
            if last in ('dot', 'matmul') and len(args) == 2:
                return self.matmul(*args)
            if last in ('asfortranarray', 'ascontiguousarray', 'asarray', 'array', 'copy') and isinstance(a0, NA):
                if len(args) > 1 or set(kw) - {'order', 'copy', 'dtype', 'a'}:
                    raise Stuck(path)
                if 'dtype' in kw and self.dtype_of(kw['dtype']) != 'float64':
                    raise Stuck(path)
                return self.copy_of(a0) if last in ('array', 'copy') else a0
            if last in ('isfinite', 'isinf', 'isnan', 'isposinf') and len(args) == 1 and self.ex(a0) is not None:
                x = self.ex(a0)
                if last == 'isposinf':
                    return CV(feq(x, INF))
                c = or_(feq(x, INF), feq(x, NINF))
                return CV(not_(c) if last == 'isfinite' else c) if last != 'isnan' else CV(FALSE)
            if last in ('ravel',) and isinstance(a0, NA) and len(args) == 1:
                return self.flat(a0)
            if last == 'transpose' and isinstance(a0, NA) and len(args) == 1:
                return self.getattr_(a0, 'T')
            if last == 'ndim' and isinstance(a0, NA):
                return Const(len(a0.shape))
            if last == 'shape' and isinstance(a0, NA):
                return self.getattr_(a0, 'shape')
            if last == 'floor' and self.ex(a0) is not None:
                return SV(floor_(self.ex(a0)), 'int' if path == 'math.floor' else 'float')
            if last == 'ceil' and self.ex(a0) is not None:
                return SV(neg(floor_(neg(self.ex(a0)))), 'int' if path == 'math.ceil' else 'float')
            if last in ('minimum', 'maximum') and len(args) == 2 and all(self.ex(a) is not None for a in args):
                return self.minmax(args, 'min' if last == 'minimum' else 'max')
            if any(isinstance(a, (NA, SV)) for a in list(args) + list(kw.values())):
                raise Stuck(path)
        if '.' in path and any(isinstance(a, (NA, Gen)) for a in list(args) + list(kw.values())):
            raise Stuck('%s is called' % path)
        return super().ext_call(path, args, kw, node)

    # ------------------------------------------------------------ builtins
    def b_int(self, a, kw, node):
        if a and isinstance(a[0], SV):
            if a[0].kind == 'int':
                return a[0]
            return SV(floor_(a[0].e), 'int')      # (of a number that is not negative)
        return super().b_int(a, kw, node)

    def b_float(self, a, kw, node):
        if a and isinstance(a[0], SV):
            return SV(a[0].e, 'float')
        return super().b_float(a, kw, node)

    def b_round(self, a, kw, node):
        if a and isinstance(a[0], SV) and len(a) == 1:
            return SV(floor_(add(a[0].e, num(Fraction(1, 2)))), 'int')
        raise Stuck('round')

    def b_abs(self, a, kw, node):
        if isinstance(a[0], SV):
            return SV(fabs(a[0].e), a[0].kind)
        if isinstance(a[0], NA):
            return self.ext_call('numpy.abs', a, kw, node)
        return super().b_abs(a, kw, node)

    def minmax(self, a, op):
        xs = self.iter(a[0]) if len(a) == 1 else list(a)
        if any(isinstance(x, SV) for x in xs):
            es = [self.ex(x) for x in xs]
            if any(e is None for e in es):
                raise Stuck(op)
            ints = all(self.kind(x) == 'int' for x in xs)
            r = es[0]
            for e in es[1:]:
                r = ((imin if op == 'min' else imax) if ints else (fmin if op == 'min' else fmax))(r, e)
            return SV(r, 'int' if ints else 'float')
        return super().minmax(a, op)

    def b_len(self, a, kw, node):
        if isinstance(a[0], NA):
            return SV(a[0].shape[0], 'int')
        return super().b_len(a, kw, node)

    def b_range(self, a, kw, node):
        if any(isinstance(x, SV) for x in a):
            es = [self.ex(x) for x in a]
            if any(e is None for e in es) or len(es) > 2:
                raise Stuck('range')
            return Range(*(es if len(es) == 2 else [ZERO] + es))
        return super().b_range(a, kw, node)

    # ------------------------------------------------------------ loops over a symbolic range
    def st_For(self, s, env, mod):
        it = self.ev(s.iter, env, mod)
        if isinstance(it, Range):
            self.sym_loop(s, env, mod, it)
            return
        for x in self.iter(it):
            self.assign(s.target, x, env, mod)
            try:
                self.block(s.body, env, mod)
            except P._Brk:
                return
            except P._Cnt:
                continue
        self.block(s.orelse, env, mod)

    def st_While(self, s, env, mod):
        rg = self.counting(s, env, mod)
        if rg is None:
            return super().st_While(s, env, mod)
        lo, hi, name = rg
        loop = ast.copy_location(ast.For(target=s.test.left, iter=s.test, body=s.body[:-1], orelse=[]), s)
        self.sym_loop(loop, env, mod, Range(lo, hi))
        self.assign(s.test.left, SV(imax(lo, hi), 'int'), env, mod)
        self.block(s.orelse, env, mod)

    def counting(self, s, env, mod):
        """while j < n: ...; j += 1  with neither changed elsewhere in the body"""
        t, last = s.test, s.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.NotEq, ast.LtE))):
            return None
        j = t.left.id
        step = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == j and \
            isinstance(last.value, ast.Constant) and last.value.value == 1
        if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == j:
            v = last.value
            step = isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == j and \
                isinstance(v.right, ast.Constant) and v.right.value == 1
        if not step:
            return None
        bound = {x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)}
        if any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(t.comparators[0])):
            return None
        for q in s.body[:-1]:
            for x in ast.walk(q):
                if isinstance(x, (ast.Continue, ast.Break, ast.Return)) or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in bound | {j}:
                    return None
        lo, hi = self.ex(self.ev(t.left, env, mod)), self.ex(self.ev(t.comparators[0], env, mod))
        if lo is None or hi is None or hi.op == 'num' and lo.op == 'num' or isinstance(t.ops[0], ast.NotEq) and not (lo.op == 'num' and val(lo) <= 1):
            return None
        return lo, add(hi, ONE) if isinstance(t.ops[0], ast.LtE) else hi, j

    def frames(self, env):
        out = []
        while env is not None:
            out.append(env)
            env = env['up']
        return out

    def snap(self, env):
        lists = []
        for e in self.frames(env):
            for v in e['v'].values():
                if isinstance(v, P.Seq):
                    lists.append((v, list(v.xs)))
        return [(b, b.arr, list(b.written)) for b in self.bufs], [(e, dict(e['v'])) for e in self.frames(env)], lists

    def back(self, sn):
        bs, es, lists = sn
        del self.bufs[len(bs):]
        for b, a, w in bs:
            b.arr, b.written = a, list(w)
        for e, d in es:
            e['v'].clear()
            e['v'].update(d)
        for v, xs in lists:
            v.xs[:] = xs

    def body_once(self, s, env, mod, j):
        self.assign(s.target, SV(j, 'int'), env, mod)
        try:
            self.block(s.body, env, mod)
        except P._Cnt:
            pass
        except (P._Brk, P._Ret):
            raise Stuck('the loop is left early')

    def body_all(self, s, env, mod, j, syms):
        """the body for a generic step, over the outcomes of conditions on the step: merged effects"""
        sn = self.snap(env)
        if any(True for _ in sn[2]):
            lens = [(v, len(xs)) for v, xs in sn[2]]
        else:
            lens = []
        outs, todo = [], [[]]
        while todo:
            ch = todo.pop()
            if len(outs) > 8:
                raise Stuck('too many conditions in a loop')
            self.back(sn)
            outer = self.inner
            self.inner = {'choices': ch, 'conds': [], 'syms': syms}
            try:
                self.body_once(s, env, mod, j)
                cs = self.inner['conds']
            finally:
                self.inner = outer
            for v, n in lens:
                if len(v.xs) != n:
                    raise Stuck('a list grows in a loop')
            outs.append((cs, [(b, b.arr, list(b.written)) for b, _, _ in sn[0]], [(e, dict(e['v'])) for e, _ in sn[1]]))
            for q in range(len(cs) - 1, len(ch) - 1, -1):
                todo.append([r for _, r in cs[:q]] + [not cs[q][1]])
        cs, bs, es = outs[0]
        bs = {b: (a, w) for b, a, w in bs}
        es = [(e, d) for e, d in es]
        for cs2, bs2, es2 in outs[1:]:
            c = and_(*[k if r else not_(k) for k, r in cs2])
            for b, a, w in bs2:
                a0, w0 = bs[b]
                bs[b] = (a0 if a is a0 else merge(c, a, a0), w0 + w)
            nes = []
            for (e, d), (_, d2) in zip(es, es2):
                m = {}
                for k in d:
                    if k not in d2 or d[k] is d2[k]:
                        m[k] = d[k]
                    elif isinstance(d[k], NA) and isinstance(d2[k], NA) and len(d[k].shape) == len(d2[k].shape):
                        m[k] = self.wrap(merge(c, d2[k].arr(), d[k].arr()))
                    elif isinstance(d[k], SV) and isinstance(d2[k], SV):
                        m[k] = SV(sel(c, d2[k].e, d[k].e), d[k].kind)
                    else:
                        m[k] = Term('unknown', Const(k))
                nes.append((e, m))
            es = nes
        return bs, es

    def sym_loop(self, s, env, mod, rg):
        if self.loops or s.orelse:
            raise Stuck('nested loop')
        lo, hi = subst(rg.lo, self.simp), subst(rg.hi, self.simp)
        if hi.op == 'num' and lo.op == 'num':
            for q in range(int(val(lo)), int(val(hi))):
                self.body_once(s, env, mod, num(q))
            return
        if lo.op != 'num':
            raise Stuck('loop from %s' % show(lo))
        start = self.snap(env)
        # the first steps, one after the other
        outer, self.inner = self.inner, {'choices': [], 'conds': [], 'syms': ()}
        nconds = len(self.conds)
        steps = []
        try:
            for q in range(4):
                self.body_once(s, env, mod, add(lo, num(q)))
                steps.append({b: b.arr for b, _, _ in start[0]})
                if q == 0:
                    after1 = self.snap(env)
        finally:
            self.inner = outer
        changed = [b for b, a, _ in start[0] if any(st[b] is not a for st in steps)]
        names = []
        for e, d in start[1]:
            for k, v in d.items():
                if e['v'].get(k) is not v and not (isinstance(s.target, ast.Name) and k == s.target.id):
                    names.append((e, k, v))
        # a generic step, from unknown contents
        self.back(start)
        j = sym('step#%d' % s.lineno, 'N')
        phi, states = {}, []
        for b in changed:
            p = fresh('before', 'A', esort='R')
            SYM_INFO[p]['shape'] = b.arr.shape
            phi[b] = p
            sh = b.arr.shape
            b.arr = mkarr(sh, lambda *i, p=p: elem(p, *i))
            b.written = []
        nphi = {}
        for e, k, v in names:
            if isinstance(v, NA) and not v.fwd:
                p = fresh('before', 'A', esort='R')
                SYM_INFO[p]['shape'] = v.shape
                e['v'][k] = self.new(v.shape, lambda *i, p=p: elem(p, *i))
                nphi[id(e), k] = p
            elif isinstance(v, (SV, Const)) and self.ex(v) is not None:
                p = fresh('before', 'R' if self.kind(v) == 'float' else 'N')
                e['v'][k] = SV(p, self.kind(v))
                nphi[id(e), k] = p
            else:
                e['v'][k] = Term('unknown', Const(k))
        self.loops.append((j, hi))
        try:
            nb, ne = self.body_all(s, env, mod, j, {j, *phi.values(), *nphi.values()})
        finally:
            self.loops.pop()
        ne_ = {id(e): d for e, d in ne}
        # arrays written at one position of one dimension that moves with the step
        tables = {}
        for b in changed:
            arr, wr = nb[b]
            spec = set()
            for w in wr:
                mv = [(q, c[1]) for q, c in enumerate(w) if c[0] == 'int' and expand(sub(c[1], j)).op == 'num']
                if len(mv) == 1 and all(c is FULL or c[0] == 'int' and q == mv[0][0] for q, c in enumerate(w)):
                    spec.add((mv[0][0], val(expand(sub(mv[0][1], j)))))
                else:
                    spec.add(None)
            if len(spec) == 1 and None not in spec:
                tables[b] = next(iter(spec))
        vecs = []
        rest = []
        for b in changed:
            if b in tables:
                continue
            (vecs if len(b.arr.shape) == 1 else rest).append(('buf', b, phi[b], nb[b][0]))
        a1 = {b: a for b, a, _ in after1[0]}
        e1 = {id(e): d for e, d in after1[1]}
        for e, k, v in names:
            p = nphi.get((id(e), k))
            nv = ne_[id(e)].get(k)
            if p is not None and isinstance(v, NA) and isinstance(nv, NA) and len(nv.shape) == 1:
                vecs.append(('name', (e, k), p, nv.arr()))
        for b, (dim_, off) in tables.items():
            arr = nb[b][0]
            F_ = fresh('filled', 'A', esort='R')
            SYM_INFO[F_]['shape'] = b.arr.shape

            def at(a, pos, i, dim_=dim_):
                ix = list(i)
                ix.insert(dim_, pos)
                return a.at(*ix)
            here, prev = add(j, num(off)), add(j, num(off - 1))
            # what was written before this step stays as it is
            rel = {}

            def rewrite(x, rel):
                m = {p: self.lam_of(p, lambda *i: at_elem(F_, dim_, prev, i)) for p in rel}
                x = subst(x, m)
                return self.settle(x, phi[b], F_, dim_, here)
            sh = tuple(d for q, d in enumerate(b.arr.shape) if q != dim_)
            ks = tuple(fresh('at', 'N') for _ in sh)
            cand = list(vecs) if len(sh) == 1 else []
            while True:
                rel = {v[2] for v in cand}
                col = rewrite(at(arr, here, ks), rel)
                bad = []
                for v in cand:
                    kind_, ref, p, new = v
                    n1 = a1.get(ref) if kind_ == 'buf' else (lambda w: w.arr() if isinstance(w, NA) else None)(e1[id(ref[0])].get(ref[1]))
                    ok = n1 is not None and len(n1.shape) == 1 and canon(n1.at(*ks)) is canon(at(a1[b], add(lo, num(off)), ks)) and \
                        canon(rewrite(new.at(*ks), rel)) is canon(col)
                    if not ok:
                        bad.append(v)
                if not bad:
                    break
                cand = [v for v in cand if v not in bad]
            unresolved = [x for x in free(col) if x in set(phi.values()) | set(nphi.values())]
            self.defs[F_] = dict(lo=lo, hi=hi, off=off, dim=dim_, start=next(a for q, a, _ in start[0] if q is b), steps=[st[b] for st in steps], j=j,
                                 at=ks, col=col, unresolved=unresolved, line=s.lineno)
            tables[b] = (dim_, off, F_, [v for v in cand])
        # after the loop
        self.back(start)
        for e, d in ne:
            for k in d:
                if k not in e['v']:
                    e['v'][k] = Term('unknown', Const(k))
        for b in changed:
            if b in tables:
                F_ = tables[b][2]
                b.arr = mkarr(b.arr.shape, lambda *i, F_=F_: elem(F_, *i))
            else:
                p = fresh('after', 'A', esort='R')
                SYM_INFO[p]['shape'] = b.arr.shape
                SYM_INFO[p]['unknown'] = True
                b.arr = mkarr(b.arr.shape, lambda *i, p=p: elem(p, *i))
            b.written = b.written + [('loop',)]
        for e, k, v in names:
            if isinstance(v, NA) and not v.fwd:
                p = fresh('after', 'A', esort='R')
                SYM_INFO[p]['shape'] = v.shape
                SYM_INFO[p]['unknown'] = True
                e['v'][k] = self.new(v.shape, lambda *i, p=p: elem(p, *i))
            else:
                e['v'][k] = Term('unknown', Const(k))
        self.fuel -= 10

    def lam_of(self, p, f):
        a = mkarr(SYM_INFO[p]['shape'], f)
        return reify(a)

    def settle(self, x, p, F_, dim_, here):
        """elements of the table written at earlier steps are those of the finished table"""
        m = {}
        for t in walk(x):
            if t.op == 'elem' and t.args[0] is p:
                d = expand(sub(t.args[1 + dim_], here))
                if d.op == 'num' and val(d) < 0:
                    m[t] = elem(F_, *t.args[1:])
        return replace(x, m) if m else x


def whole(e):
    if e.op == 'num':
        return val(e).denominator == 1
    if e.op == 'sym':
        return e.args[1] == 'N'
    return e.op == 'floor' or e.op in ('add', 'mul') and all(whole(x) for x in e.args)


def floor_(e):
    return e if whole(e) else mk('floor', e)


def at_elem(F_, dim_, pos, i):
    ix = list(i)
    ix.insert(dim_, pos)
    return elem(F_, *ix)


def val_min(e):
    return SYM_INFO.get(e, {}).get('min', 0) if e.op == 'sym' else 0


def paths(prog, body, limit=200):
    out, todo = [], [[]]
    while todo:
        ch = todo.pop()
        if len(out) >= limit:
            I = NInterp(prog)
            out.append(P.Outcome('unknown', 'more than %d paths' % limit, I))
            return out
        I = NInterp(prog, ch)
        try:
            o = P.Outcome('return', body(I), I)
        except PyRaise as r:
            o = P.Outcome('raise', r.exc, I)
        except Stuck as s:
            o = P.Outcome('unknown', str(s), I)
        except (P._Brk, P._Cnt, P._Ret):
            o = P.Outcome('unknown', 'control flow', I)
        except RecursionError:
            o = P.Outcome('unknown', 'recursion', I)
        out.append(o)
        for i in range(len(I.taken) - 1, len(ch) - 1, -1):
            todo.append(I.taken[:i] + [not I.taken[i]])
    return out
