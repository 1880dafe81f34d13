"""Abstract interpretation of the Python layer from its syntax tree.

Values are constants, numbers known only by type and by the cell of a finite partition they lie in, symbols, arrays known
only by where their entries come from (`Data`), terms over these, and containers and objects of known structure.  External
functions are never called: those the layer uses to convert data are modelled, every other call is a term.  A condition the
domain does not decide is taken both ways (one path each)."""
import ast
import math
import os


class Stuck(Exception):
    """a construct outside the domain: the path is reported as unknown"""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cnt(Exception):
    pass


# ------------------------------------------------------------------ values
class V:
    pass


class Const(V):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)


class Num(V):
    """a number known by type and by cell: a point, an open interval (lo, hi), or NaN"""
    def __init__(self, ty, lo, hi=None, name=None):
        self.ty, self.lo, self.hi, self.name = ty, lo, lo if hi is None else hi, name

    def point(self):
        return self.lo == self.hi or self.lo != self.lo

    def __repr__(self):
        return '%s %s' % (self.ty, self.lo if self.point() else 'in (%s, %s)' % (self.lo, self.hi))


class Other(V):
    """a value of some other type"""
    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return 'some %s' % self.ty


class Term(V):
    def __init__(self, op, *args):
        self.op, self.args = op, args

    def key(self):
        return (self.op,) + tuple(vkey(a) for a in self.args)

    def __repr__(self):
        if self.op == 'sym':
            return self.args[0]
        if self.op == 'ext':
            return self.args[0]
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


def Sym(name, ty=None):
    return Term('sym', name, ty)


def Ext(path):
    return Term('ext', path)


class Buf:
    n = 0

    def __init__(self, who):
        self.who = who
        self.mods = []
        Buf.n += 1
        self.id = Buf.n


class Data(V):
    """an array: whose entries (`who`), element type, layout, the memory it lives in, how the entries were changed on the way"""
    def __init__(self, who, dtype, sparse, rank, fmt, buf, how=(), part=None, tr=False, idx='i32'):
        self.who, self.dtype, self.sparse, self.rank, self.fmt, self.buf = who, dtype, sparse, rank, fmt, buf
        self.how, self.part, self.tr, self.idx = tuple(how), part, tr, idx
        self.seen = len(buf.mods)

    def as_type(self, dtype):
        """the same array in that element type; a narrower one does not hold the same values"""
        if (self.dtype, dtype) in (('float64', 'float32'), ('int64', 'float32'), ('float64', 'int64'), ('float32', 'int64')):
            return self.with_(dtype=dtype, how=self.how + ('rounded to %s' % dtype,))
        return self.with_(dtype=dtype)

    def with_(self, **k):
        d = Data(self.who, self.dtype, self.sparse, self.rank, self.fmt, self.buf, self.how, self.part, self.tr, self.idx)
        for a, b in k.items():
            setattr(d, a, b)
        return d

    def changes(self):
        return self.how + tuple(self.buf.mods)

    def __repr__(self):
        return '%s%s%s%s%s' % (self.who, '.T' if self.tr else '', '.' + self.part if self.part else '',
                               '[%s]' % self.dtype, ''.join('<%s>' % (h,) for h in self.changes()))


class Seq(V):
    def __init__(self, kind, xs):
        self.kind, self.xs = kind, list(xs)

    def __repr__(self):
        return ('[%s]' if self.kind == 'list' else '(%s)') % ', '.join(map(repr, self.xs))


class Dct(V):
    def __init__(self, items=()):
        self.d = {}
        for k, v in items:
            self.d[vkey(k)] = (k, v)

    def get(self, k):
        r = self.d.get(vkey(k))
        return r[1] if r else None

    def set(self, k, v):
        self.d[vkey(k)] = (k, v)

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % kv for kv in self.d.values())


class Func(V):
    def __init__(self, node, env, mod, cls=None, name=None):
        self.node, self.env, self.mod, self.cls, self.name = node, env, mod, cls, name or getattr(node, 'name', '<lambda>')
        self.defaults, self.kwdefaults = [], []

    def __repr__(self):
        return 'function %s' % self.name


class Bound(V):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return 'method %r of %r' % (self.fn, self.self_)


class Deco(V):
    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn


class Cls(V):
    def __init__(self, name, bases, mod):
        self.name, self.bases, self.mod, self.attrs = name, bases, mod, {}

    def mro(self):
        seqs = [b.mro() if isinstance(b, Cls) else [b] for b in self.bases] + [list(self.bases)]
        out = [self]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(any(same(h, x) for x in t[1:]) for t in seqs):
                    break
            else:
                raise Stuck('inconsistent bases of %s' % self.name)
            out.append(h)
            seqs = [[x for x in s if not same(x, h)] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def __repr__(self):
        return 'class %s' % self.name


class Obj(V):
    n = 0

    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
        Obj.n += 1
        self.id = Obj.n

    def __repr__(self):
        return '<%s>' % (self.cls.name if isinstance(self.cls, Cls) else self.cls)


class Exc(V):
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def names(self):
        """the exception's class and its bases, by name"""
        if isinstance(self.cls, Cls):
            return [c.name if isinstance(c, Cls) else str(c).split('.')[-1] for c in self.cls.mro()] + \
                   [n for c in self.cls.mro() if not isinstance(c, Cls) and is_exc(str(c).split('.')[-1]) for n in exc_bases(str(c).split('.')[-1])]
        return exc_bases(self.cls)

    def __repr__(self):
        return self.cls.name if isinstance(self.cls, Cls) else str(self.cls)


class Super(V):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Module(V):
    def __init__(self, name):
        self.name, self.env = name, {}

    def __repr__(self):
        return 'module %s' % self.name


class Native(V):
    """an instance of one of the native classes, with its constructor's arguments"""
    def __init__(self, cls, args, kw, site):
        self.cls, self.args, self.kw, self.site = cls, args, kw, site

    def __repr__(self):
        return '<native %s>' % self.cls


EXCS = {'ValueError': 'Exception', 'TypeError': 'Exception', 'RuntimeError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
        'LookupError': 'Exception', 'AttributeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'AssertionError': 'Exception',
        'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'Exception': 'BaseException',
        'BaseException': None, 'Warning': 'Exception', 'UserWarning': 'Warning', 'NameError': 'Exception', 'StopIteration': 'Exception',
        'ImportError': 'Exception', 'OSError': 'Exception', 'UnboundLocalError': 'NameError', 'FloatingPointError': 'ArithmeticError',
        'NotFittedError': 'ValueError', 'UnicodeError': 'ValueError', 'MemoryError': 'Exception', 'KeyboardInterrupt': 'BaseException',
        'DataConversionWarning': 'UserWarning', 'ConvergenceWarning': 'UserWarning'}
ALIAS = {'PanicException': ['PanicException', 'BaseException']}


def is_exc(n):
    return n in EXCS or n.endswith(('Error', 'Exception', 'Warning'))


def exc_bases(n):
    if n in ALIAS:
        return ALIAS[n]
    out = []
    while n:
        out.append(n)
        n = EXCS.get(n, 'Exception' if n not in EXCS and n not in ('BaseException',) else None)
        if n in out:
            break
    if 'NotFittedError' in out and 'AttributeError' not in out:
        out.append('AttributeError')
    return out


def vkey(v):
    if isinstance(v, Const):
        return ('c', type(v.v).__name__, repr(v.v))
    if isinstance(v, Term):
        return ('t',) + v.key()
    if isinstance(v, Seq):
        return (v.kind,) + tuple(vkey(x) for x in v.xs)
    if isinstance(v, Data):
        return ('data', v.who, v.dtype, v.rank, v.part, v.tr, v.changes(), v.buf.id)
    if isinstance(v, Num) and v.point() and v.lo == v.lo:
        return ('num', v.ty, v.lo)
    if isinstance(v, V):
        return ('id', id(v))
    if isinstance(v, tuple):
        return tuple(vkey(x) for x in v)
    return ('py', repr(v))


def same(a, b):
    return a is b or vkey(a) == vkey(b)


def isext(v, *names):
    return isinstance(v, Term) and v.op == 'ext' and (v.args[0] in names)


BUILTIN = {'isinstance', 'issubclass', 'len', 'getattr', 'setattr', 'hasattr', 'dict', 'list', 'tuple', 'set', 'frozenset', 'str', 'int', 'float', 'bool',
           'abs', 'min', 'max', 'range', 'enumerate', 'zip', 'print', 'format', 'type', 'super', 'any', 'all', 'sorted', 'repr', 'callable', 'sum',
           'map', 'filter', 'vars', 'object', 'id', 'hash', 'iter', 'next', 'reversed', 'round', 'complex', 'bytes', 'delattr', 'staticmethod',
           'classmethod', 'property', 'divmod', 'pow', 'open', 'input', 'exec', 'eval', 'globals', 'locals', 'dir', 'slice', 'NotImplemented'}

# type lattice of numeric and other types, for isinstance
TYBASES = {
    'float': {'float', 'object', 'numbers.Real', 'numbers.Number', 'numbers.Complex'},
    'int': {'int', 'object', 'numbers.Integral', 'numbers.Rational', 'numbers.Real', 'numbers.Number', 'numbers.Complex'},
    'bool': {'bool', 'int', 'object', 'numbers.Integral', 'numbers.Rational', 'numbers.Real', 'numbers.Number', 'numbers.Complex'},
    'str': {'str', 'object'}, 'NoneType': {'NoneType', 'object'}, 'list': {'list', 'object'}, 'tuple': {'tuple', 'object'}, 'dict': {'dict', 'object'},
    'complex': {'complex', 'object', 'numbers.Number', 'numbers.Complex'},
    'numpy.float64': {'numpy.float64', 'numpy.floating', 'numpy.inexact', 'numpy.number', 'numpy.generic', 'float', 'object', 'numbers.Real',
                      'numbers.Number', 'numbers.Complex', 'numpy.float_', 'numpy.double'},
    'numpy.float32': {'numpy.float32', 'numpy.floating', 'numpy.inexact', 'numpy.number', 'numpy.generic', 'object', 'numbers.Real', 'numbers.Number',
                      'numbers.Complex', 'numpy.single'},
    'numpy.int64': {'numpy.int64', 'numpy.integer', 'numpy.signedinteger', 'numpy.number', 'numpy.generic', 'object', 'numbers.Integral',
                    'numbers.Real', 'numbers.Number', 'numbers.Complex', 'numbers.Rational', 'numpy.int_'},
}
KNOWN_TYPES = set().union(*TYBASES.values()) | {'numpy.ndarray', 'set', 'bytes'}

F64NAMES = {'numpy.float64', 'float', 'float64', 'numpy.double', 'numpy.float_', 'd', 'f8', '<f8'}
F32NAMES = {'numpy.float32', 'float32', 'f', 'f4', 'numpy.single', '<f4'}
I64NAMES = {'numpy.int64', 'int', 'int64', 'numpy.int32', 'int32', 'numpy.int_', 'i8', 'i4'}

WRITERS = {'sort', 'fill', 'resize', 'itemset', 'partition', 'put', 'sort_indices', 'sum_duplicates', 'eliminate_zeros', 'prune', 'byteswap', 'setdiag',
           'setfield'}
REORDER = {'sort_indices', 'sum_duplicates', 'eliminate_zeros', 'prune'}       # write, but do not change the matrix
PURE = {'mean', 'sum', 'max', 'min', 'std', 'var', 'any', 'all', 'argmax', 'argmin', 'dot', 'nonzero', 'item', 'tolist', 'getnnz', 'count_nonzero',
        'prod', 'cumsum', 'trace', 'conj', 'conjugate', 'round', 'clip', 'argsort', 'diagonal', 'power', 'multiply', 'minimum', 'maximum', 'getcol',
        'getrow', 'indices', 'isfinite'}


# numpy functions that always return an array or a scalar
MAKERS = {'zeros', 'ones', 'empty', 'full', 'array', 'arange', 'eye', 'identity', 'linspace', 'asarray', 'zeros_like', 'ones_like', 'empty_like', 'full_like',
          'concatenate', 'hstack', 'vstack', 'stack', 'dot', 'matmul', 'mean', 'sum', 'max', 'min', 'abs', 'sqrt', 'asfortranarray', 'ascontiguousarray'}


class Interp:
    """one path: `choices` fixes the outcome of each undecided condition, in order of appearance"""

    def __init__(self, prog, choices=(), oracle=None, fuel=200000):
        self.prog, self.choices, self.oracle = prog, list(choices), oracle
        self.taken, self.pc, self.memo = [], [], {}
        self.events = []                # (kind, ...) native constructions and calls, prints, writes
        self.fuel = fuel
        self.depth = 0
        self.nnat = 0
        self.fns = set()
        self.raised_by = None

    # ------------------------------------------------------------ choices
    def fork(self, term, label=None):
        k = vkey(term)
        if k in self.memo:
            return self.memo[k]
        r = None
        if self.oracle:
            r = self.oracle(term)
        if r is None:
            n = len(self.taken)
            r = self.choices[n] if n < len(self.choices) else True
            self.taken.append(r)
            self.pc.append((term, r))
        self.memo[k] = r
        return r

    def event(self, *e):
        self.events.append(e)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Num):
            if v.lo != v.lo:
                return True
            if v.point():
                return v.lo != 0
            if v.lo >= 0 or v.hi <= 0:
                return True
            return self.fork(Term('truth', v))
        if isinstance(v, Seq):
            return bool(v.xs)
        if isinstance(v, Dct):
            return bool(v.d)
        if isinstance(v, (Func, Bound, Cls, Obj, Native, Module, Exc)):
            return True
        if isinstance(v, Other):
            return self.fork(Term('truth', v))
        if isinstance(v, Term):
            if v.op == 'not':
                return not self.truth(v.args[0])
            if v.op == 'ext':
                return True
            if v.op in ('eq', 'lt', 'le', 'isinstance', 'in', 'is', 'issparse', 'callb', 'truth', 'hasattr'):
                return self.fork(v)
            if v.op == 'sym' and v.args[1] == 'bool':
                return self.fork(v)
            if v.op == 'str':
                return True
            return self.fork(Term('truth', v))
        if isinstance(v, Data):
            raise Stuck('truth value of an array')
        raise Stuck('truth of %r' % (v,))

    # ------------------------------------------------------------ comparisons
    def num(self, v):
        """(lo, hi) closed point or open interval; None if not numeric"""
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            return (v.v, v.v)
        if isinstance(v, Num):
            return (v.lo, v.hi)
        if isext(v, 'numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.infty'):
            return (math.inf, math.inf)
        if isext(v, 'numpy.nan', 'math.nan', 'numpy.NaN'):
            return (math.nan, math.nan)
        return None

    def cmp(self, op, a, b):
        if op in ('is', 'isnot'):
            r = self.is_(a, b)
            return r if op == 'is' else self.neg(r)
        if op == 'ne':
            return self.neg(self.cmp('eq', a, b))
        if op == 'gt':
            return self.cmp('lt', b, a)
        if op == 'ge':
            return self.cmp('le', b, a)
        if op in ('in', 'notin'):
            r = self.in_(a, b)
            return r if op == 'in' else self.neg(r)
        x, y = self.num(a), self.num(b)
        if x and y:
            if x[0] != x[0] or y[0] != y[0]:
                return Const(False)
            px, py = x[0] == x[1], y[0] == y[1]
            if px and py:
                return Const({'eq': x[0] == y[0], 'lt': x[0] < y[0], 'le': x[0] <= y[0]}[op])
            if isinstance(a, Num) and a is b:
                return Const(op != 'lt')
            if x[1] <= y[0]:                       # everything left of y
                return Const(op != 'eq')
            if y[1] <= x[0]:
                return Const(False)
            return Term(op, a, b)
        if op == 'eq':
            if isinstance(a, Data) or isinstance(b, Data):
                return Term('eqarr', a, b)
            fa, fb = self.dtype_of(a), self.dtype_of(b)
            if (isinstance(a, Term) and a.op == 'dtype') or (isinstance(b, Term) and b.op == 'dtype'):
                if fa and fb:
                    return Const(fa == fb)
            if same(a, b):
                return Const(True)
            if isinstance(a, Const) and isinstance(b, Const):
                return Const(a.v == b.v)
            if isinstance(a, Seq) and isinstance(b, Seq):
                if a.kind != b.kind or len(a.xs) != len(b.xs):
                    return Const(False)
                for p, q in zip(a.xs, b.xs):
                    if not self.truth(self.cmp('eq', p, q)):
                        return Const(False)
                return Const(True)
            if isinstance(a, (Const, Num, Other)) and isinstance(b, (Const, Num, Other)):
                if self.tyname(a) != self.tyname(b) and 'some' not in (self.tyname(a), self.tyname(b)):
                    return Const(False)
            ka, kb = vkey(a), vkey(b)
            return Term('eq', a, b) if repr(ka) <= repr(kb) else Term('eq', b, a)
        if isinstance(a, (Const, Other)) and x is None or isinstance(b, (Const, Other)) and y is None:
            ta, tb = self.tyname(a), self.tyname(b)
            if isinstance(a, Const) and isinstance(b, Const) and ta == tb and ta in ('str', 'tuple', 'bytes'):
                return Const({'lt': a.v < b.v, 'le': a.v <= b.v}[op])
            if (ta in ('str', 'NoneType', 'list', 'dict', 'complex', 'tuple')) != (tb in ('str', 'NoneType', 'list', 'dict', 'complex', 'tuple')) \
                    or 'NoneType' in (ta, tb) or ta == 'complex':
                raise PyRaise(Exc('TypeError'))
        return Term(op, a, b)

    def neg(self, v):
        if isinstance(v, Const):
            return Const(not v.v)
        if isinstance(v, Term) and v.op == 'not':
            return v.args[0]
        return Term('not', v)

    def is_(self, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return Const(a.v is b.v)
            return Term('is', a, b)
        for p, q in ((a, b), (b, a)):
            if isinstance(q, Const) and (q.v is None or isinstance(q.v, bool)):
                if isinstance(p, (Data, Obj, Func, Cls, Native, Seq, Dct, Bound, Other, Num)) or isinstance(p, Term) and (p.op in ('ext', 'str', 'dtype', 'matmul', 'bin', 'shape', 'dim') or
                                                                        p.op == 'call' and isinstance(p.args[0], Term) and p.args[0].op == 'ext' and
                                                                        p.args[0].args[0].startswith('numpy.') and q.v is None and
                                                                        p.args[0].args[0].split('.')[1] in MAKERS):
                    if isinstance(p, Num) and p.ty == 'bool':
                        return Const(isinstance(q.v, bool) and bool(p.lo) == q.v)
                    if isinstance(p, Other) and p.ty == 'NoneType':
                        return Const(q.v is None)
                    return Const(False)
                if isinstance(p, Term) and p.op == 'sym' and p.args[1] in ('int', 'float'):
                    return Const(False)
                if isinstance(p, Term) and p.op == 'sym' and p.args[1] == 'bool' and q.v is not None:
                    t = Term('truth', p) if False else p
                    r = self.truth(t)
                    return Const(r == q.v)
        if isinstance(a, Term) and a.op == 'ext' and isinstance(b, Term) and b.op == 'ext':
            return Const(a.args[0] == b.args[0])
        if isinstance(a, (Cls, Obj, Func, Data)) or isinstance(b, (Cls, Obj, Func, Data)):
            return Const(a is b)
        return Term('is', a, b)

    def in_(self, a, b):
        if isinstance(b, Seq):
            for x in b.xs:
                if self.truth(self.cmp('eq', a, x)):
                    return Const(True)
            return Const(False)
        if isinstance(b, Dct):
            if isinstance(a, Const):
                return Const(b.get(a) is not None)
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(b.v, str):
            return Const(a.v in b.v)
        return Term('in', a, b)

    # ------------------------------------------------------------ types
    def tyname(self, v):
        if isinstance(v, Const):
            return type(v.v).__name__
        if isinstance(v, Num) or isinstance(v, Other):
            return v.ty
        if isinstance(v, Seq):
            return v.kind
        if isinstance(v, Dct):
            return 'dict'
        if isinstance(v, Term) and v.op == 'sym' and v.args[1]:
            return v.args[1]
        if isinstance(v, Term) and v.op == 'str':
            return 'str'
        return 'some'

    def isinstance_(self, v, t):
        if isinstance(t, Seq):
            for x in t.xs:
                if self.truth(self.isinstance_(v, x)):
                    return Const(True)
            return Const(False)
        if isinstance(v, Obj):
            if isinstance(t, Cls):
                return Const(any(c is t for c in v.cls.mro()))
            if isinstance(t, Term) and t.op == 'ext':
                if any(same(c, t) for c in v.cls.mro()):
                    return Const(True)
        if isinstance(v, Exc):
            n = t.name if isinstance(t, Cls) else t.args[0].split('.')[-1] if isinstance(t, Term) and t.op == 'ext' else None
            if n:
                return Const(n in v.names())
        if isinstance(t, Term) and t.op == 'ext':
            n = t.args[0]
            if n == 'object':
                return Const(True)
            ty = self.tyname(v)
            if ty in TYBASES and n in KNOWN_TYPES:
                return Const(n in TYBASES[ty])
            if ty in TYBASES and n.startswith('scipy'):
                return Const(False)
            if isinstance(v, Data):
                if n == 'numpy.ndarray':
                    return Const(not v.sparse)
                if n.startswith('scipy.sparse'):
                    if not v.sparse:
                        return Const(False)
                    return Term('isinstance', v, t)
                if n in KNOWN_TYPES:
                    return Const(False)
        return Term('isinstance', v, t)

    # ------------------------------------------------------------ environment
    def lookup(self, name, env, mod):
        e = env
        while e is not None:
            if name in e['v']:
                return e['v'][name]
            e = e['up']
        if name in mod.env:
            return mod.env[name]
        if name in BUILTIN or name in EXCS:
            return Ext(name)
        if name == '__name__':
            return Const(mod.name)
        raise PyRaise(Exc('NameError'))

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, mod):
        self.fuel -= 1
        if self.fuel < 0:
            raise Stuck('too long')
        k = type(e).__name__
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Stuck('expression %s (line %s)' % (k, getattr(e, 'lineno', '?')))
        return m(e, env, mod)

    def ev_Constant(self, e, env, mod):
        return Const(e.value)

    def ev_Name(self, e, env, mod):
        return self.lookup(e.id, env, mod)

    def ev_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def ev_Attribute(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr, e)

    def ev_Tuple(self, e, env, mod):
        return Seq('tuple', self.spread(e.elts, env, mod))

    def ev_List(self, e, env, mod):
        return Seq('list', self.spread(e.elts, env, mod))

    def ev_Set(self, e, env, mod):
        return Seq('set', self.spread(e.elts, env, mod))

    def spread(self, elts, env, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iter(self.ev(x.value, env, mod))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def ev_Dict(self, e, env, mod):
        d = Dct()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env, mod)
                if not isinstance(o, Dct):
                    raise Stuck('** of %r' % (o,))
                for kk, vv in o.d.values():
                    d.set(kk, vv)
            else:
                d.set(self.ev(k, env, mod), self.ev(v, env, mod))
        return d

    def ev_JoinedStr(self, e, env, mod):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                parts.append(self.ev(x.value, env, mod))
            else:
                parts.append(self.ev(x, env, mod))
        if all(isinstance(p, Const) for p in parts) and all(not isinstance(x, ast.FormattedValue) or (x.format_spec is None and x.conversion == -1) for x in e.values):
            return Const(''.join(str(p.v) for p in parts))
        return Term('str', *parts)

    def ev_FormattedValue(self, e, env, mod):
        return Term('str', self.ev(e.value, env, mod))

    def ev_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def ev_BoolOp(self, e, env, mod):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env, mod)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v if isinstance(v, Const) or not isinstance(v, Term) or v.op not in ('eq', 'lt', 'le', 'not', 'isinstance', 'is', 'in') else Const(t)
        return v

    def ev_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            return Const(not self.truth(v))
        if isinstance(e.op, ast.USub):
            n = self.num(v)
            if n:
                return Num(v.ty, -n[1], -n[0]) if isinstance(v, Num) else Const(-n[0])
            return Term('neg', v)
        if isinstance(e.op, ast.UAdd):
            return v
        n = self.num(v)
        if n and isinstance(v, Const) and isinstance(v.v, int):
            return Const(~v.v)
        return Term('invert', v)

    def ev_Compare(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        names = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne', ast.Is: 'is', ast.IsNot: 'isnot',
                 ast.In: 'in', ast.NotIn: 'notin'}
        r = None
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(x, env, mod)
            r = self.cmp(names[type(op)], a, b)
            if i < len(e.ops) - 1 and not self.truth(r):
                return Const(False)
            a = b
        return r

    def ev_BinOp(self, e, env, mod):
        return self.binop(type(e.op).__name__, self.ev(e.left, env, mod), self.ev(e.right, env, mod))

    def binop(self, op, a, b):
        if op == 'Mod' and isinstance(a, Const) and isinstance(a.v, str):
            return Term('str', a, b)
        if isinstance(a, Const) and isinstance(b, Const):
            f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y, 'Div': lambda x, y: x / y,
                 'FloorDiv': lambda x, y: x // y, 'Pow': lambda x, y: x ** y, 'Mod': lambda x, y: x % y,
                 'BitOr': lambda x, y: x | y, 'BitAnd': lambda x, y: x & y}.get(op)
            if f:
                try:
                    return Const(f(a.v, b.v))
                except ZeroDivisionError:
                    raise PyRaise(Exc('ZeroDivisionError'))
                except TypeError:
                    raise PyRaise(Exc('TypeError'))
                except Exception:
                    pass
        if op == 'Add' and isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
            return Seq(a.kind, a.xs + b.xs)
        if op == 'BitOr' and isinstance(a, Dct) and isinstance(b, Dct):
            return Dct(list(a.d.values()) + list(b.d.values()))
        if op == 'MatMult':
            return self.matmul(a, b)
        if op == 'Add' and any(isinstance(x, Term) and x.op == 'str' or isinstance(x, Const) and isinstance(x.v, str) for x in (a, b)):
            return Term('str', a, b)
        x, y = self.num(a), self.num(b)
        if x and y and op in ('Add', 'Sub', 'Mult'):
            ty = 'float' if 'float' in (self.tyname(a), self.tyname(b)) else 'int'
            if op == 'Sub':
                y = (-y[1], -y[0])
                op = 'Add'
            if op == 'Add':
                lo, hi = x[0] + y[0], x[1] + y[1]
                if lo == lo and hi == hi or x[0] != x[0] or y[0] != y[0]:
                    return Num(ty, lo, hi)
            elif a is b and x[0] == x[0]:
                if x[0] == x[1]:
                    return Num(ty, x[0] * x[0])
                if x[0] >= 0:
                    return Num(ty, x[0] * x[0], x[1] * x[1])
                if x[1] <= 0:
                    return Num(ty, x[1] * x[1], x[0] * x[0])
            elif x[0] == x[1] or y[0] == y[1]:
                c, (lo, hi) = (x[0], y) if x[0] == x[1] else (y[0], x)
                p, q = c * lo, c * hi
                if p == p and q == q or lo != lo or c != c:
                    return Num(ty, min(p, q) if p == p else p, max(p, q) if p == p else p)
        if isinstance(a, (Num, Other)) or isinstance(b, (Num, Other)):
            raise Stuck('%s on %r and %r' % (op, a, b))
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Data):
                return p.with_(how=p.how + (self.describe(op, a, b),), buf=self.fresh(p))
        return Term('bin', op, a, b)

    def describe(self, op, a, b):
        return '%s of %r and %r' % (op, short(a), short(b))

    def fresh(self, d):
        return Buf(d.buf.who + "'") if not d.buf.mods else self.carry(d)

    def carry(self, d):
        b = Buf(d.buf.who + "'")
        b.mods = list(d.buf.mods)
        return b

    def matmul(self, a, b):
        return Term('matmul', a, b)

    def ev_Subscript(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        i = self.index(e.slice, env, mod)
        return self.getitem(v, i)

    def index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            return Term('slice', *[self.ev(x, env, mod) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return Seq('tuple', [self.index(x, env, mod) for x in s.elts])
        return self.ev(s, env, mod)

    def getitem(self, v, i):
        if isinstance(v, Seq) and isinstance(i, Const) and isinstance(i.v, int):
            if -len(v.xs) <= i.v < len(v.xs):
                return v.xs[i.v]
            raise PyRaise(Exc('IndexError'))
        if isinstance(v, Seq) and isinstance(i, Term) and i.op == 'slice' and all(isinstance(x, Const) for x in i.args):
            return Seq(v.kind, v.xs[slice(*[x.v for x in i.args])])
        if isinstance(v, Dct):
            r = v.get(i)
            if r is not None:
                return r
            if isinstance(i, Const) and all(isinstance(k, Const) for k, _ in v.d.values()):
                raise PyRaise(Exc('KeyError'))
            raise Stuck('lookup of %r' % (i,))
        if isinstance(v, Data):
            full = Term('slice', NONE, NONE, NONE)
            ix = i.xs if isinstance(i, Seq) else [i]
            if all(same(x, full) or isinstance(x, Const) and x.v is Ellipsis for x in ix):
                return v.with_()
            return v.with_(how=v.how + ('entries selected by %r' % (i,),))
        if isinstance(v, Term) and v.op == 'shape' and isinstance(i, Const):
            return dim(v.args[0], v.args[1], v.args[2], i)
        return Term('item', v, i)

    def ev_Lambda(self, e, env, mod):
        f = Func(e, env, mod)
        f.defaults = [self.ev(d, env, mod) for d in e.args.defaults]
        f.kwdefaults = [self.ev(d, env, mod) if d is not None else None for d in e.args.kw_defaults]
        return f

    def comp(self, gens, elt, env, mod, out):
        if not gens:
            out.append(elt(env))
            return
        g = gens[0]
        for x in self.iter(self.ev(g.iter, env, mod)):
            en = {'v': {}, 'up': env}
            self.assign(g.target, x, en, mod)
            if all(self.truth(self.ev(c, en, mod)) for c in g.ifs):
                self.comp(gens[1:], elt, en, mod, out)

    def ev_ListComp(self, e, env, mod, kind='list'):
        out = []
        self.comp(e.generators, lambda en: self.ev(e.elt, en, mod), env, mod, out)
        return Seq(kind, out)

    def ev_GeneratorExp(self, e, env, mod):
        return self.ev_ListComp(e, env, mod, 'list')

    def ev_SetComp(self, e, env, mod):
        return self.ev_ListComp(e, env, mod, 'set')

    def ev_DictComp(self, e, env, mod):
        out = []
        self.comp(e.generators, lambda en: (self.ev(e.key, en, mod), self.ev(e.value, en, mod)), env, mod, out)
        return Dct(out)

    def ev_Starred(self, e, env, mod):
        raise Stuck('starred expression')

    def iter(self, v):
        if isinstance(v, Seq):
            return list(v.xs)
        if isinstance(v, Dct):
            return [k for k, _ in v.d.values()]
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(c) for c in v.v]
        if isinstance(v, Const) and isinstance(v.v, (tuple, list)):
            return [Const(c) for c in v.v]
        raise Stuck('iteration over %r' % (v,))

    # ------------------------------------------------------------ attributes
    def find(self, cls, name, after=None):
        """(definition, class) in the mro, or an external base"""
        started = after is None
        for c in cls.mro():
            if not started:
                started = c is after
                continue
            if isinstance(c, Cls):
                if name in c.attrs:
                    return c.attrs[name], c
            elif not isext(c, 'object'):
                return Term('attr', c, name), c
        return None, None

    def bindto(self, d, o, cls):
        if isinstance(d, Func):
            return Bound(d, o)
        if isinstance(d, Deco):
            if d.kind == 'staticmethod':
                return d.fn
            if d.kind == 'classmethod':
                return Bound(d.fn, o.cls if isinstance(o, Obj) else o)
            return self.call(d.fn, [o], {}, None)
        if isinstance(d, Term) and d.op == 'attr':
            return Bound(d, o)
        return d

    def getattr(self, v, name, node=None, default=None):
        r = self.getattr_(v, name)
        if r is not None:
            return r
        if default is not None:
            return default
        raise PyRaise(Exc('AttributeError'))

    def getattr_(self, v, name):
        if isinstance(v, Obj):
            if name == '__dict__':
                return Term('attrs', v)
            if name == '__class__':
                return v.cls
            if name in v.attrs:
                d, c = self.find(v.cls, name)
                if isinstance(d, Deco) and d.kind == 'property':
                    return self.bindto(d, v, c)
                return v.attrs[name]
            d, c = self.find(v.cls, name)
            if d is None:
                return None
            if isinstance(d, Term) and d.op == 'attr' and isinstance(c, Term):
                if not known_base_attr(c.args[0], name):
                    return None
            return self.bindto(d, v, c)
        if isinstance(v, Super):
            d, c = self.find(v.self_.cls if isinstance(v.self_, Obj) else v.self_, name, after=v.cls)
            if d is None:
                if name == '__init__':
                    return Ext('object.__init__')
                return None
            return self.bindto(d, v.self_, c)
        if isinstance(v, Cls):
            if name == '__name__':
                return Const(v.name)
            d, c = self.find(v, name)
            if isinstance(d, Deco):
                return d.fn if d.kind == 'staticmethod' else Bound(d.fn, v) if d.kind == 'classmethod' else d
            return d
        if isinstance(v, Module):
            if name in v.env:
                return v.env[name]
            return None
        if isinstance(v, Data):
            return self.data_attr(v, name)
        if isinstance(v, Native):
            return Term('nmeth', v, name)
        if isinstance(v, Term):
            if v.op == 'ext':
                return Ext(v.args[0] + '.' + name)
            if v.op == 'dtype' and name in ('type', 'name'):
                return Ext('numpy.' + v.args[0]) if name == 'type' else Const(v.args[0])
            if name == 'T' and v.op == 'matmul':
                return Term('T', v)
            return Term('attr', v, name)
        if isinstance(v, Dct):
            if name in ('items', 'keys', 'values', 'get', 'update', 'pop', 'setdefault', 'copy'):
                return Term('dmeth', v, name)
            return None
        if isinstance(v, Seq):
            if name in ('append', 'extend', 'insert', 'index', 'count', 'pop', 'copy', 'remove', 'add'):
                return Term('smeth', v, name)
            return None
        if isinstance(v, Const) or isinstance(v, (Num, Other)):
            if isinstance(v, Const) and v.v is None:
                return None
            return Term('vmeth', v, name)
        if isinstance(v, Func):
            return Const(v.name) if name == '__name__' else Term('attr', v, name)
        if isinstance(v, Exc):
            return Term('attr', Sym('exception'), name)
        if isinstance(v, Bound):
            return Term('attr', Sym('method'), name)
        raise Stuck('attribute %s of %r' % (name, v))

    def data_attr(self, v, name):
        if name == 'T':
            return self.transpose(v)
        if name == 'shape':
            return Term('shape', v.who, v.tr, v.rank) if not v.part and not any('selected' in str(h) for h in v.how) else Term('attr', v, name)
        if name == 'dtype':
            return Term('dtype', v.dtype) if v.dtype else Term('attr', v, name)
        if name == 'ndim':
            return Const(v.rank)
        if name in ('data', 'indices', 'indptr'):
            if v.sparse and not v.part:
                if v.tr:
                    return v.with_(part='%s of the transpose' % name, rank=1, sparse=False)
                return v.with_(part=name, rank=1, sparse=False, dtype=v.dtype if name == 'data' else v.idx)
            if name == 'data':
                return Term('attr', v, name)
            return None
        if name in ('flags', 'size', 'nnz', 'itemsize', 'strides', 'nbytes', 'base', 'format', 'has_sorted_indices', 'has_canonical_format', 'flat', 'real', 'A'):
            if name == 'A':
                return v.with_(sparse=False, fmt='C', buf=self.fresh(v)) if v.sparse else None
            if name == 'real':
                return v.with_()
            if name == 'format' and v.sparse and v.fmt:
                return Const(v.fmt)
            if not v.sparse and name in ('nnz', 'format', 'has_sorted_indices', 'has_canonical_format'):
                return None
            return Term('attr', v, name)
        return Term('ameth', v, name)

    def transpose(self, v):
        if v.rank == 1:
            return v
        return v.with_(tr=not v.tr, fmt={'csc': 'csr', 'csr': 'csc'}.get(v.fmt, v.fmt))

    def setattr(self, o, name, val):
        if isinstance(o, Obj):
            d, c = self.find(o.cls, name)
            if isinstance(d, Deco) and d.kind == 'property':
                raise Stuck('property setter')
            o.attrs[name] = val
            self.event('set', o, name, val)
            return
        if isinstance(o, (Cls, Module)):
            raise Stuck('write to %r' % (o,))
        if isinstance(o, Data):
            if name in ('data', 'indices', 'indptr', 'shape', 'dtype', 'flat'):
                self.write(o, 'attribute %s assigned' % name)
                return
            self.event('flag', o, name)
            return
        if isinstance(o, Term) and o.op == 'attr':
            return
        if isinstance(o, Native):
            raise Stuck('attribute of a native object')
        raise Stuck('attribute write to %r' % (o,))

    # ------------------------------------------------------------ writes to arrays
    def write(self, d, what, reorder=False):
        self.event('write', d, what)
        if not reorder:
            d.buf.mods.append(what)

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, env, mod):
        f = None
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            r = self.lookup('super', env, mod)
            if isext(r, 'super'):
                en = env
                while en is not None:
                    if en.get('fn') is not None:
                        fn = en['fn']
                        if fn.cls is None:
                            break
                        a = fn.node.args
                        first = (a.posonlyargs + a.args)[0].arg
                        return Super(fn.cls, en['v'][first])
                    en = en['up']
                raise Stuck('super()')
        f = self.ev(e.func, env, mod)
        args = self.spread(e.args, env, mod)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if not isinstance(v, Dct):
                    raise Stuck('** of %r' % (v,))
                for kk, vv in v.d.values():
                    if not isinstance(kk, Const):
                        raise Stuck('unknown keyword')
                    if kk.v in kw:
                        raise PyRaise(Exc('TypeError'))
                    kw[kk.v] = vv
            else:
                if k.arg in kw:
                    raise PyRaise(Exc('TypeError'))
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        if isinstance(f, Bound):
            if isinstance(f.fn, Term):
                return self.ext_method(f.fn.args[0], f.fn.args[1], f.self_, args, kw, node)
            return self.call(f.fn, [f.self_] + args, kw, node)
        if isinstance(f, Func):
            return self.invoke(f, args, kw)
        if isinstance(f, Cls):
            if any(isinstance(c, Term) and is_exc(c.args[0].split('.')[-1]) for c in f.mro()):
                return Exc(f, args)
            o = Obj(f)
            d, c = self.find(f, '__init__')
            if isinstance(d, Func):
                self.call(d, [o] + args, kw, node)
            elif d is None:
                if args or kw:
                    raise PyRaise(Exc('TypeError'))
            return o
        if isinstance(f, Deco):
            return self.call(f.fn, args, kw, node)
        if isinstance(f, Term):
            if f.op == 'ext':
                return self.ext_call(f.args[0], args, kw, node)
            if f.op == 'ameth':
                return self.data_method(f.args[0], f.args[1], args, kw, node)
            if f.op == 'nmeth':
                return self.native_method(f.args[0], f.args[1], args, kw, node)
            if f.op == 'dmeth':
                return self.dict_method(f.args[0], f.args[1], args, kw)
            if f.op == 'smeth':
                return self.list_method(f.args[0], f.args[1], args, kw)
            if f.op == 'vmeth':
                v, n = f.args
                if isinstance(v, Const) and isinstance(v.v, str):
                    if n == 'join' and len(args) == 1:
                        return Term('str', v, *self.iter(args[0]))
                    if all(isinstance(a, Const) for a in args) and all(isinstance(a, Const) for a in kw.values()) and hasattr(str, n):
                        try:
                            return self.lift(getattr(v.v, n)(*[a.v for a in args], **{k: a.v for k, a in kw.items()}))
                        except Exception:
                            raise PyRaise(Exc('ValueError'))
                    return Term('str', v, *(args + list(kw.values())))
                if isinstance(v, (Num, Const)) and n == 'is_integer' and self.num(v) and self.num(v)[0] == self.num(v)[1]:
                    return Const(float(self.num(v)[0]).is_integer())
                raise Stuck('method %s of %r' % (n, v))
            if f.op == 'attr' and isinstance(f.args[0], Term) and f.args[0].op == 'attrs':
                o, n = f.args[0].args[0], f.args[1]
                if n == 'update':
                    if len(args) == 1 and isinstance(args[0], Dct):
                        for kk, vv in args[0].d.values():
                            self.setattr(o, kk.v, vv)
                    for kk, vv in kw.items():
                        self.setattr(o, kk, vv)
                    return NONE
                raise Stuck('__dict__.%s' % n)
            if f.op == 'attr' and isinstance(f.args[0], Term) and f.args[0].op == 'str':
                return Term('str', f, *args)
            for a in args + list(kw.values()):
                self.escape(a, repr(f))
            return Term('call', f, Seq('tuple', args), Dct([(Const(k), v) for k, v in sorted(kw.items())]))
        if isinstance(f, Obj):
            d, c = self.find(f.cls, '__call__')
            if isinstance(d, Func):
                return self.call(d, [f] + args, kw, node)
        if isinstance(f, (Const, Num, Seq, Dct)):
            raise PyRaise(Exc('TypeError'))
        raise Stuck('call of %r' % (f,))

    def escape(self, a, what):
        if isinstance(a, Data):
            self.event('escape', a, what)
        elif isinstance(a, Obj):
            raise Stuck('an object is passed to %s' % what)
        elif isinstance(a, Seq):
            for x in a.xs:
                self.escape(x, what)

    def lift(self, v):
        if isinstance(v, (list, tuple)):
            return Seq(type(v).__name__, [self.lift(x) for x in v])
        return Const(v)

    def invoke(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            raise Stuck('recursion')
        self.fns.add('%s.%s' % (f.cls.name, f.name) if f.cls else f.name)
        try:
            env = {'v': {}, 'up': f.env, 'fn': f}
            self.bind(f, args, kw, env)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node)):
                raise Stuck('generator')
            try:
                self.block(f.node.body, env, f.mod)
            except _Ret as r:
                return r.v
            return NONE
        finally:
            self.depth -= 1

    def bind(self, f, args, kw, env):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        v = env['v']
        if len(args) > len(pos) and not a.vararg:
            raise PyRaise(Exc('TypeError'))
        for n, x in zip(pos, args):
            v[n] = x
        if a.vararg:
            v[a.vararg.arg] = Seq('tuple', args[len(pos):])
        ponly = {p.arg for p in a.posonlyargs}
        for n in pos:
            if n in kw and n not in ponly:
                if n in v:
                    raise PyRaise(Exc('TypeError'))
                v[n] = kw.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in v:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyRaise(Exc('TypeError'))
                v[n] = f.defaults[j]
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kw:
                v[p.arg] = kw.pop(p.arg)
            elif d is not None:
                v[p.arg] = d
            else:
                raise PyRaise(Exc('TypeError'))
        if a.kwarg:
            v[a.kwarg.arg] = Dct([(Const(k), x) for k, x in kw.items()])
        elif kw:
            raise PyRaise(Exc('TypeError'))

    def dict_method(self, d, n, args, kw):
        if n == 'items':
            return Seq('list', [Seq('tuple', [k, v]) for k, v in d.d.values()])
        if n == 'keys':
            return Seq('list', [k for k, _ in d.d.values()])
        if n == 'values':
            return Seq('list', [v for _, v in d.d.values()])
        if n == 'copy':
            return Dct(d.d.values())
        if n in ('get', 'pop', 'setdefault') and args:
            r = d.get(args[0])
            if r is not None:
                if n == 'pop':
                    del d.d[vkey(args[0])]
                return r
            if n == 'pop' and len(args) == 1:
                raise PyRaise(Exc('KeyError'))
            r = args[1] if len(args) > 1 else NONE
            if n == 'setdefault':
                d.set(args[0], r)
            return r
        if n == 'update':
            for o in args:
                if not isinstance(o, Dct):
                    raise Stuck('dict.update')
                for k, v in o.d.values():
                    d.set(k, v)
            for k, v in kw.items():
                d.set(Const(k), v)
            return NONE
        raise Stuck('dict.%s' % n)

    def list_method(self, s, n, args, kw):
        if n in ('append', 'add') and len(args) == 1:
            s.xs.append(args[0])
            return NONE
        if n == 'extend':
            s.xs += self.iter(args[0])
            return NONE
        if n == 'copy':
            return Seq(s.kind, s.xs)
        if n == 'insert' and isinstance(args[0], Const):
            s.xs.insert(args[0].v, args[1])
            return NONE
        if n == 'pop' and s.xs and (not args or isinstance(args[0], Const)):
            return s.xs.pop(*[a.v for a in args])
        raise Stuck('list.%s' % n)

    # ------------------------------------------------------------ dtypes
    def dtype_of(self, v):
        n = None
        if isinstance(v, Term) and v.op == 'dtype':
            return v.args[0]
        if isinstance(v, Term) and v.op == 'ext':
            n = v.args[0]
        elif isinstance(v, Const) and isinstance(v.v, str):
            n = v.v
        if n in F64NAMES:
            return 'float64'
        if n in F32NAMES:
            return 'float32'
        if n in I64NAMES:
            return 'int64'
        if isinstance(v, Term) and v.op == 'call' and isext(v.args[0], 'numpy.dtype') and len(v.args[1].xs) == 1:
            return self.dtype_of(v.args[1].xs[0])
        return None

    def convert(self, d, dtype, order, copy, accept=None, accept_large=True, what='check_array', check=True):
        """sklearn's check_array on an array: the same entries, converted"""
        if not isinstance(d, Data):
            raise Stuck('%s of %r' % (what, d))
        if d.sparse and accept is not None:
            if isinstance(accept, Const) and accept.v in (False, None):
                raise PyRaise(Exc('TypeError'))
        new = d.dtype
        if dtype is not None and not (isinstance(dtype, Const) and dtype.v in (None, 'numeric')):
            if isinstance(dtype, Seq):
                ds = [self.dtype_of(x) for x in dtype.xs]
                if any(x is None for x in ds):
                    raise Stuck('dtype %r' % (dtype,))
                new = d.dtype if d.dtype in ds else ds[0]
            else:
                new = self.dtype_of(dtype)
                if new is None:
                    raise Stuck('dtype %r' % (dtype,))
        fresh = new != d.dtype
        if copy is not None and not isinstance(copy, Const):
            raise Stuck('copy=%r' % (copy,))
        if copy is not None and copy.v:
            fresh = True
        fmt, idx = d.fmt, d.idx
        if d.sparse and accept is not None:
            fs = [accept.v] if isinstance(accept, Const) else [x.v for x in accept.xs if isinstance(x, Const)] if isinstance(accept, Seq) else None
            if fs is None:
                raise Stuck('accept_sparse=%r' % (accept,))
            if True not in fs and d.fmt not in fs:
                fmt, fresh = fs[0], True
            if isinstance(accept_large, Const) and not accept_large.v and idx != 'i32':
                raise PyRaise(Exc('ValueError'))
        if not d.sparse and isinstance(order, Const) and order.v in ('F', 'C') and d.rank > 1 and d.fmt not in (order.v, 'FC'):
            fmt, fresh = order.v, True
        return d.as_type(new).with_(fmt=fmt, buf=self.fresh(d) if fresh else d.buf)

    # ------------------------------------------------------------ array methods
    def data_method(self, d, n, args, kw, node):
        def arg(i, name, default=None):
            return args[i] if len(args) > i else kw.get(name, default)
        if n == 'astype':
            dt = self.dtype_of(arg(0, 'dtype'))
            if dt is None:
                raise Stuck('astype %r' % (arg(0, 'dtype'),))
            c = kw.get('copy')
            if c is not None and not isinstance(c, Const):
                raise Stuck('astype copy')
            fresh = c is None or c.v or dt != d.dtype
            return d.as_type(dt).with_(buf=self.fresh(d) if fresh else d.buf)
        if n in ('copy', '__copy__', '__deepcopy__'):
            return d.with_(buf=self.fresh(d))
        if n in ('tocsc', 'tocsr', 'asformat', 'tocoo', 'tolil', 'todok'):
            if not d.sparse:
                raise PyRaise(Exc('AttributeError'))
            f = n[2:] if n != 'asformat' else (args[0].v if args and isinstance(args[0], Const) else None)
            if f is None:
                raise Stuck('asformat')
            c = kw.get('copy')
            same_ = f == d.fmt and not (c is not None and isinstance(c, Const) and c.v)
            return d.with_(fmt=f, buf=d.buf if same_ else self.fresh(d))
        if n in ('toarray', 'todense'):
            if not d.sparse:
                raise PyRaise(Exc('AttributeError'))
            return d.with_(sparse=False, fmt='C', buf=self.fresh(d))
        if n == 'transpose' and not args and not kw:
            return self.transpose(d)
        if n in ('ravel', 'flatten', 'squeeze') and d.rank == 1:
            return d.with_(buf=self.fresh(d)) if n == 'flatten' else d
        if n in ('reshape',) and d.rank == 1 and len(args) == 1 and isinstance(args[0], Const) and args[0].v == -1:
            return d
        if n == 'dot' and len(args) == 1:
            return self.matmul(d, args[0])
        if n == '__matmul__' and len(args) == 1:
            return self.matmul(d, args[0])
        if n == '__rmatmul__' and len(args) == 1:
            return self.matmul(args[0], d)
        if n == '__len__':
            return self.length(d)
        if n in WRITERS:
            if not d.sparse and n in REORDER:
                raise PyRaise(Exc('AttributeError'))
            self.write(d, '.%s()' % n, n in REORDER)
            return NONE
        if n == 'clip' and 'out' in kw:
            self.write(kw['out'], '.clip(out=)')
            return kw['out']
        if n in ('reshape', 'ravel', 'flatten', 'squeeze', 'swapaxes', 'view', 'repeat', 'take', 'transpose', 'clip', 'round', 'conj', 'multiply', 'power',
                 'minimum', 'maximum', 'cumsum', 'getcol', 'getrow'):
            if 'out' in kw and isinstance(kw['out'], Data):
                self.write(kw['out'], '.%s(out=)' % n)
            if n == 'reshape' or n == 'transpose' or n == 'squeeze' or n == 'view':
                raise Stuck('.%s' % n)
            return d.with_(how=d.how + ('.%s()' % n,), buf=self.fresh(d))
        if n in PURE:
            return Term('red', n, d)
        self.event('escape', d, '.%s' % n)
        return Term('call', Term('ameth', d, n), Seq('tuple', args), Dct([(Const(k), v) for k, v in sorted(kw.items())]))

    def length(self, d):
        if d.sparse:
            raise PyRaise(Exc('TypeError'))
        if d.part:
            return Term('len', d)
        return dim(d.who, d.tr, d.rank, Const(0))

    # ------------------------------------------------------------ native objects
    def native_method(self, o, n, args, kw, node):
        site = getattr(node, 'lineno', 0)
        self.nnat += 1
        k = self.nnat
        changes = [a.changes() if isinstance(a, Data) else () for a in args + list(kw.values())]
        self.event('native', o, n, args, kw, site, changes)
        for exc in self.prog.native_raises:
            if self.fork(Term('raises', Const('%s#%d' % (n, k)), Const(exc))):
                self.raised_by = (n, exc)
                raise PyRaise(Exc(exc))
        rank = self.prog.native_rank(o.cls, n)
        if rank is None:
            return Term('call', Term('nmeth', o, n), Seq('tuple', args), Dct([(Const(q), v) for q, v in sorted(kw.items())]))
        return Data('native result %d' % k, 'float64', False, rank, 'C', Buf('native%d' % k))

    # ------------------------------------------------------------ external functions
    def ext_method(self, base, name, self_, args, kw, node):
        b = base.args[0]
        if name == '__init__' and b in ('sklearn.base.BaseEstimator', 'object'):
            return NONE
        if name in ('_validate_data',):
            return self.validate_data(args, kw, node)
        if name == '_check_n_features' or name == '_check_feature_names':
            return NONE
        if name == 'get_params':
            raise Stuck('get_params')
        raise Stuck('method %s of %s' % (name, b))

    def validate_data(self, args, kw, node):
        self.may_raise('_validate_data')
        a = list(args)
        X = a.pop(0) if a else kw.pop('X', None)
        y = a.pop(0) if a else kw.get('y')
        kw = {k: v for k, v in kw.items() if k not in ('y', 'reset', 'cast_to_ndarray')}
        vs = kw.pop('validate_separately', None)
        if vs is not None and isinstance(vs, Seq):
            px, py = vs.xs
            return Seq('tuple', [self.check_array([X], {k.v: v for k, v in px.d.values()}, node), self.check_array([y], {k.v: v for k, v in py.d.values()}, node)])
        if y is None or isinstance(y, Const):
            return self.check_array([X], kw, node)
        return self.check_X_y([X, y], kw, node)

    def check_array(self, args, kw, node):
        self.may_raise('check_array')
        def arg(i, name, default=None):
            return args[i] if len(args) > i else kw.get(name, default)
        if isinstance(arg(0, 'array'), Term) or isinstance(arg(0, 'array'), Const):
            raise Stuck('check_array of %r' % (arg(0, 'array'),))
        d = arg(0, 'array')
        if isinstance(d, Data) and d.rank == 1:
            e2 = kw.get('ensure_2d', Const(True))
            if isinstance(e2, Const) and e2.v:
                raise PyRaise(Exc('ValueError'))
        return self.convert(d, kw.get('dtype', Const('numeric')), kw.get('order', NONE), kw.get('copy', Const(False)), arg(1, 'accept_sparse', Const(False)),
                            kw.get('accept_large_sparse', Const(True)))

    def check_X_y(self, args, kw, node):
        kw = dict(kw)
        mo, yn = kw.pop('multi_output', Const(False)), kw.pop('y_numeric', Const(False))
        X = self.check_array([args[0]] + args[2:], {k: v for k, v in kw.items()}, node)
        y = args[1]
        if not isinstance(y, Data):
            raise Stuck('check_X_y')
        if isinstance(mo, Const) and not mo.v and y.rank != 1:
            raise PyRaise(Exc('ValueError'))
        self.check_len(X, y)
        return Seq('tuple', [X, y.with_()])

    def check_len(self, *ds):
        ts = [dim(d.who, d.tr, d.rank, Const(0)) for d in ds if isinstance(d, Data)]
        for a, b in zip(ts, ts[1:]):
            if not self.truth(self.cmp('eq', a, b)):
                raise PyRaise(Exc('ValueError'))

    def may_raise(self, what):
        if self.prog.ext_raises and self.fork(Term('raises', Const('%s#%d' % (what, self.count(what))), Const('ValueError'))):
            self.raised_by = (what, 'ValueError')
            raise PyRaise(Exc('ValueError'))

    def count(self, what):
        self.cnt = getattr(self, 'cnt', {})
        self.cnt[what] = self.cnt.get(what, 0) + 1
        return self.cnt[what]

    def ext_call(self, path, args, kw, node):
        def arg(i, name, default=None):
            return args[i] if len(args) > i else kw.get(name, default)
        last = path.split('.')[-1]
        b = getattr(self, 'b_' + path, None) if '.' not in path else None
        if b:
            return b(args, kw, node)
        if path in EXCS or '.' in path and last in EXCS:
            return Exc(last, args)
        if path.startswith('sparseglm._lib.'):
            self.event('new', last, args, kw, getattr(node, 'lineno', 0))
            return Native(last, args, kw, getattr(node, 'lineno', 0))
        if path in ('sklearn.utils.check_array', 'sklearn.utils.validation.check_array'):
            return self.check_array(args, kw, node)
        if path in ('sklearn.utils.check_X_y', 'sklearn.utils.validation.check_X_y'):
            return self.check_X_y(args, kw, node)
        if path in ('sklearn.utils.check_consistent_length', 'sklearn.utils.validation.check_consistent_length'):
            self.check_len(*args)
            return NONE
        if path in ('scipy.sparse.issparse', 'scipy.sparse.isspmatrix', 'scipy.sparse.base.issparse'):
            return Const(args[0].sparse) if isinstance(args[0], Data) else Const(False) if isinstance(args[0], (Const, Num, Seq)) else Term('issparse', args[0])
        if path in ('scipy.sparse.isspmatrix_csc',) and isinstance(args[0], Data):
            return Const(args[0].sparse and args[0].fmt == 'csc')
        if path in ('scipy.sparse.csc_matrix', 'scipy.sparse.csc_array') and isinstance(args[0], Data) and not args[0].part and args[0].rank == 2:
            d = args[0]
            dt = self.dtype_of(kw['dtype']) if 'dtype' in kw else d.dtype
            c = kw.get('copy')
            fresh = not d.sparse or d.fmt != 'csc' or dt != d.dtype or (isinstance(c, Const) and c.v)
            return d.with_(sparse=True, fmt='csc', dtype=dt, buf=self.fresh(d) if fresh else d.buf)
        if path in ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.asanyarray', 'numpy.require',
                    'numpy.asarray_chkfinite') and isinstance(arg(0, 'a'), Data):
            d = arg(0, 'a')
            if d.sparse:
                raise Stuck('%s of a sparse matrix' % path)
            dt = arg(1, 'dtype')
            dt = d.dtype if dt is None or isinstance(dt, Const) and dt.v is None else self.dtype_of(dt)
            if dt is None:
                raise Stuck('dtype')
            fresh = dt != d.dtype
            fmt = d.fmt
            c = kw.get('copy')
            if last == 'array' and not (isinstance(c, Const) and c.v is False):
                fresh = True
            o = kw.get('order')
            want = {'ascontiguousarray': 'C', 'asfortranarray': 'F'}.get(last) or (o.v if isinstance(o, Const) else None)
            if want in ('C', 'F') and d.rank > 1 and d.fmt not in (want, 'FC'):
                fresh, fmt = True, want
            return d.as_type(dt).with_(fmt=fmt, buf=self.fresh(d) if fresh else d.buf)
        if path in ('numpy.transpose',) and len(args) == 1 and isinstance(args[0], Data) and not kw:
            return self.transpose(args[0])
        if path in ('numpy.copy', 'copy.copy', 'copy.deepcopy', 'sklearn.utils.safe_mask') and len(args) == 1 and isinstance(args[0], Data):
            return args[0].with_(buf=self.fresh(args[0]))
        if path in ('copy.copy', 'copy.deepcopy') and len(args) == 1 and isinstance(args[0], (Const, Num, Term)):
            return args[0]
        if path in ('numpy.dot', 'numpy.matmul', 'sklearn.utils.extmath.safe_sparse_dot', 'operator.matmul') and len(args) == 2 and 'out' not in kw:
            if path == 'numpy.dot' or path == 'numpy.matmul':
                if any(isinstance(a, Data) and a.sparse for a in args):
                    return Term('nosparse', Const(path), *args)     # numpy treats a scipy matrix as one object: not a matrix product
            return self.matmul(args[0], args[1])
        if path in ('numpy.ndim',) and isinstance(args[0], Data):
            return Const(args[0].rank)
        if path in ('numpy.shape',) and isinstance(args[0], Data):
            return self.getattr(args[0], 'shape')
        if path in ('sklearn.utils.validation._num_samples', 'sklearn.utils._num_samples') and isinstance(args[0], Data):
            return dim(args[0].who, args[0].tr, args[0].rank, Const(0))
        if path in ('numpy.squeeze', 'numpy.ravel', 'numpy.atleast_1d') and len(args) == 1 and isinstance(args[0], Data) and args[0].rank == 1:
            return args[0]
        if path in ('sklearn.utils.validation.check_is_fitted', 'sklearn.utils.check_is_fitted'):
            return self.check_is_fitted(args, kw)
        if path in ('numpy.isnan', 'math.isnan', 'numpy.isfinite', 'math.isfinite', 'numpy.isinf', 'math.isinf') and len(args) == 1:
            n = self.num(args[0])
            if n:
                if last == 'isnan':
                    return Const(n[0] != n[0])
                fin = n[0] == n[0] and not (n[0] == n[1] and math.isinf(n[0]))
                return Const(fin) if last == 'isfinite' else Const(n[0] == n[1] and n[0] == n[0] and math.isinf(n[0]))
            if isinstance(args[0], (Other, Const)):
                raise PyRaise(Exc('TypeError'))
            if isinstance(args[0], Data):
                return Term('red', last, args[0])
            return Term('callb', Const(path), *args)
        if path in ('numpy.isscalar', 'numpy.issubdtype', 'numpy.any', 'numpy.all', 'numpy.array_equal', 'numpy.allclose', 'math.isclose', 'numpy.isrealobj'):
            return Term('callb', Const(path), *args)
        if path == 'numpy.dtype' and len(args) == 1:
            dt = self.dtype_of(args[0])
            return Term('dtype', dt) if dt else Term('call', Ext(path), Seq('tuple', args), Dct())
        if path in ('numpy.float64', 'numpy.double') and len(args) == 1 and not isinstance(args[0], Data):
            return self.b_float(args, kw, node)
        if path in ('warnings.warn', 'logging.info', 'logging.debug', 'logging.warning', 'warnings.simplefilter', 'warnings.filterwarnings'):
            self.event('warn', path, list(self.pc))
            return NONE
        if path in ('sys.stdout.write', 'sys.stderr.write'):
            self.event('print', list(self.pc), getattr(node, 'lineno', 0))
            return NONE
        if path.startswith('functools.partial') and args:
            return self.partial(args, kw)
        if path.startswith('operator.') and last == 'attrgetter' and len(args) == 1 and isinstance(args[0], Const):
            raise Stuck('attrgetter')
        if path.startswith('numpy.'):
            outs = [kw['out']] if 'out' in kw else []
            if last in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'shuffle') or path == 'numpy.random.shuffle':
                outs.append(args[0])
            if last == 'nan_to_num' and isinstance(kw.get('copy', args[1] if len(args) > 1 else None), Const) and not kw.get('copy', args[1] if len(args) > 1 else None).v:
                outs.append(args[0])
            for o in outs:
                if isinstance(o, Data):
                    self.write(o, '%s()' % path)
            ds = [a for a in args if isinstance(a, Data)]
            if outs and isinstance(outs[0], Data):
                return outs[0]
            if last in ('abs', 'absolute', 'sqrt', 'square', 'exp', 'log', 'multiply', 'divide', 'subtract', 'add', 'negative', 'clip', 'round', 'flip', 'fliplr',
                        'flipud', 'sort', 'roll', 'sign', 'maximum', 'minimum', 'where', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'power',
                        'nan_to_num', 'log1p', 'diff', 'cumsum') and ds:
                d = ds[-1] if last == 'where' else ds[0]
                return d.with_(how=d.how + ('%s()' % path,), buf=self.fresh(d))
            return Term('call', Ext(path), Seq('tuple', args), Dct([(Const(k), v) for k, v in sorted(kw.items())]))
        for a in args + list(kw.values()):
            self.escape(a, path)
        return Term('call', Ext(path), Seq('tuple', args), Dct([(Const(k), v) for k, v in sorted(kw.items())]))

    def check_is_fitted(self, args, kw):
        o = args[0]
        at = args[1] if len(args) > 1 else kw.get('attributes')
        if isinstance(o, Obj):
            if at is not None and not (isinstance(at, Const) and at.v is None):
                names = [at.v] if isinstance(at, Const) else [x.v for x in at.xs]
                ok = all(n in o.attrs for n in names)
            else:
                ok = any(n.endswith('_') and not n.startswith('__') for n in o.attrs)
            if not ok:
                raise PyRaise(Exc('NotFittedError'))
            return NONE
        raise Stuck('check_is_fitted')

    def partial(self, args, kw):
        raise Stuck('functools.partial')

    # ------------------------------------------------------------ builtins
    def b_isinstance(self, a, kw, node):
        return self.isinstance_(a[0], a[1])

    def b_issubclass(self, a, kw, node):
        if isinstance(a[0], Cls):
            return Const(any(same(c, a[1]) for c in a[0].mro()))
        raise Stuck('issubclass')

    def b_len(self, a, kw, node):
        v = a[0]
        if isinstance(v, Seq):
            return Const(len(v.xs))
        if isinstance(v, Dct):
            return Const(len(v.d))
        if isinstance(v, Const) and isinstance(v.v, str):
            return Const(len(v.v))
        if isinstance(v, Data):
            return self.length(v)
        if isinstance(v, Term) and v.op == 'shape':
            return Const(v.args[2])
        if isinstance(v, (Const, Num)):
            raise PyRaise(Exc('TypeError'))
        return Term('len', v)

    def b_getattr(self, a, kw, node):
        if not isinstance(a[1], Const):
            raise Stuck('getattr')
        return self.getattr(a[0], a[1].v, node, a[2] if len(a) > 2 else None)

    def b_setattr(self, a, kw, node):
        if not isinstance(a[1], Const):
            raise Stuck('setattr')
        self.setattr(a[0], a[1].v, a[2])
        return NONE

    def b_delattr(self, a, kw, node):
        self.delattr(a[0], a[1].v)
        return NONE

    def delattr(self, o, name):
        if isinstance(o, Obj):
            if name not in o.attrs:
                raise PyRaise(Exc('AttributeError'))
            del o.attrs[name]
            self.event('set', o, name, None)
            return
        raise Stuck('del attribute')

    def b_hasattr(self, a, kw, node):
        if not isinstance(a[1], Const):
            raise Stuck('hasattr')
        if isinstance(a[0], Data):
            n = a[1].v
            if n in ('indptr', 'indices', 'tocsc', 'tocsr', 'toarray', 'nnz', 'todense'):
                return Const(a[0].sparse)
            if n in ('shape', 'dtype', 'ndim', 'T', 'astype'):
                return Const(True)
            return Term('hasattr', a[0], a[1])
        if isinstance(a[0], (Obj, Module, Cls, Num, Const)):
            try:
                return Const(self.getattr_(a[0], a[1].v) is not None)
            except PyRaise:
                return Const(False)
        return Term('hasattr', a[0], a[1])

    def b_dict(self, a, kw, node):
        d = Dct()
        if a:
            if isinstance(a[0], Dct):
                for k, v in a[0].d.values():
                    d.set(k, v)
            else:
                for p in self.iter(a[0]):
                    q = self.iter(p)
                    d.set(q[0], q[1])
        for k, v in kw.items():
            d.set(Const(k), v)
        return d

    def b_list(self, a, kw, node):
        return Seq('list', self.iter(a[0]) if a else [])

    def b_tuple(self, a, kw, node):
        return Seq('tuple', self.iter(a[0]) if a else [])

    def b_set(self, a, kw, node):
        return Seq('set', self.iter(a[0]) if a else [])

    b_frozenset = b_set

    def b_sorted(self, a, kw, node):
        xs = self.iter(a[0])
        if kw or not all(isinstance(x, Const) for x in xs):
            raise Stuck('sorted')
        return Seq('list', [Const(v) for v in sorted(x.v for x in xs)])

    def b_reversed(self, a, kw, node):
        return Seq('list', self.iter(a[0])[::-1])

    def b_enumerate(self, a, kw, node):
        return Seq('list', [Seq('tuple', [Const(i), x]) for i, x in enumerate(self.iter(a[0]))])

    def b_zip(self, a, kw, node):
        return Seq('list', [Seq('tuple', list(t)) for t in zip(*[self.iter(x) for x in a])])

    def b_range(self, a, kw, node):
        if all(isinstance(x, Const) for x in a):
            return Seq('list', [Const(i) for i in range(*[x.v for x in a])])
        raise Stuck('range')

    def b_map(self, a, kw, node):
        return Seq('list', [self.call(a[0], list(t), {}, node) for t in zip(*[self.iter(x) for x in a[1:]])])

    def b_filter(self, a, kw, node):
        return Seq('list', [x for x in self.iter(a[1]) if self.truth(x if isinstance(a[0], Const) else self.call(a[0], [x], {}, node))])

    def b_any(self, a, kw, node):
        return Const(any(self.truth(x) for x in self.iter(a[0])))

    def b_all(self, a, kw, node):
        return Const(all(self.truth(x) for x in self.iter(a[0])))

    def b_str(self, a, kw, node):
        if a and isinstance(a[0], Const):
            return Const(str(a[0].v))
        return Term('str', *a) if a else Const('')

    b_repr = b_str
    b_format = b_str

    def b_type(self, a, kw, node):
        v = a[0]
        if isinstance(v, Obj):
            return v.cls
        t = self.tyname(v)
        if t != 'some':
            return Ext(t)
        return Term('type', v)

    def b_super(self, a, kw, node):
        return Super(a[0], a[1])

    def b_print(self, a, kw, node):
        self.event('print', list(self.pc), getattr(node, 'lineno', 0))
        return NONE

    def b_callable(self, a, kw, node):
        return Const(isinstance(a[0], (Func, Bound, Cls)))

    def b_object(self, a, kw, node):
        return Sym('object')

    def b_float(self, a, kw, node):
        v = a[0] if a else Const(0.0)
        if isinstance(v, Const):
            try:
                return Const(float(v.v))
            except ValueError:
                raise PyRaise(Exc('ValueError'))
            except TypeError:
                raise PyRaise(Exc('TypeError'))
        if isinstance(v, Num):
            return Num('float', v.lo, v.hi)
        if isinstance(v, Term) and self.tyname(v) == 'float':
            return v
        if isinstance(v, Other):
            raise PyRaise(Exc('TypeError' if v.ty != 'str' else 'ValueError'))
        return Term('float', v)

    def b_int(self, a, kw, node):
        v = a[0] if a else Const(0)
        if isinstance(v, Const):
            try:
                return Const(int(v.v))
            except ValueError:
                raise PyRaise(Exc('ValueError'))
            except OverflowError:
                raise PyRaise(Exc('OverflowError'))
            except TypeError:
                raise PyRaise(Exc('TypeError'))
        if isinstance(v, Num) and v.ty in ('int', 'bool'):
            return Num('int', v.lo, v.hi)
        if isinstance(v, Num) and v.point():
            try:
                return Const(int(v.lo))
            except (ValueError, OverflowError) as e:
                raise PyRaise(Exc(type(e).__name__))
        if isinstance(v, Num):
            raise Stuck('int of %r' % v)
        if isinstance(v, Term) and self.tyname(v) == 'int':
            return v
        return Term('int', v)

    def b_bool(self, a, kw, node):
        v = a[0] if a else Const(False)
        if isinstance(v, Term) and self.tyname(v) == 'bool':
            return v
        if isinstance(v, Term) and v.op == 'sym':
            return Term('bool', v)
        return Const(self.truth(v))

    def b_abs(self, a, kw, node):
        n = self.num(a[0])
        if n:
            if n[0] != n[0] or n[0] >= 0:
                return a[0]
            if n[1] <= 0:
                return Num(self.tyname(a[0]), -n[1], -n[0])
            raise Stuck('abs')
        if isinstance(a[0], Data):
            return a[0].with_(how=a[0].how + ('abs()',), buf=self.fresh(a[0]))
        return Term('abs', a[0])

    def minmax(self, a, op):
        xs = self.iter(a[0]) if len(a) == 1 else list(a)
        if all(isinstance(x, Const) for x in xs) and xs:
            return Const((min if op == 'min' else max)(x.v for x in xs))
        r = xs[0]
        for x in xs[1:]:
            if self.num(r) and self.num(x):
                c = self.cmp('lt', x, r) if op == 'min' else self.cmp('lt', r, x)
                if self.truth(c):
                    r = x
            else:
                r = Term(op, r, x)
        return r

    def b_min(self, a, kw, node):
        return self.minmax(a, 'min')

    def b_max(self, a, kw, node):
        return self.minmax(a, 'max')

    def b_sum(self, a, kw, node):
        r = Const(0)
        for x in self.iter(a[0]):
            r = self.binop('Add', r, x)
        return r

    def b_vars(self, a, kw, node):
        if a and isinstance(a[0], Obj):
            return Term('attrs', a[0])
        raise Stuck('vars')

    def b_staticmethod(self, a, kw, node):
        return Deco('staticmethod', a[0])

    def b_classmethod(self, a, kw, node):
        return Deco('classmethod', a[0])

    def b_property(self, a, kw, node):
        return Deco('property', a[0])

    def b_id(self, a, kw, node):
        return Term('id', a[0])

    def b_iter(self, a, kw, node):
        return Seq('list', self.iter(a[0]))

    def b_exec(self, a, kw, node):
        raise Stuck('exec')

    b_eval = b_exec
    b_globals = b_exec
    b_locals = b_exec
    b_next = b_exec

    # ------------------------------------------------------------ statements
    def block(self, ss, env, mod):
        for s in ss:
            self.fuel -= 1
            if self.fuel < 0:
                raise Stuck('too long')
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                raise Stuck('statement %s (line %d)' % (type(s).__name__, s.lineno))
            m(s, env, mod)

    def st_Expr(self, s, env, mod):
        self.ev(s.value, env, mod)

    def st_Pass(self, s, env, mod):
        pass

    def st_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def st_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def st_AugAssign(self, s, env, mod):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            old = self.getattr(o, t.attr)
        else:
            o = self.ev(t.value, env, mod)
            i = self.index(t.slice, env, mod)
            if isinstance(o, Data):
                self.write(o, 'entries %r changed in place' % (i,))
                return
            old = self.getitem(o, i)
        v = self.ev(s.value, env, mod)
        if isinstance(old, Data) and op != 'MatMult':
            self.write(old, '%s= %r' % (op, short(v)))
            new = old
        elif isinstance(old, Seq) and old.kind == 'list' and op == 'Add':
            old.xs += self.iter(v)
            new = old
        else:
            new = self.binop(op, old, v)
        if isinstance(t, ast.Name):
            self.assign(t, new, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            self.setitem(o, i, new)

    def setitem(self, o, i, v):
        if isinstance(o, Dct):
            o.set(i, v)
            return
        if isinstance(o, Seq) and isinstance(i, Const) and isinstance(i.v, int) and -len(o.xs) <= i.v < len(o.xs):
            o.xs[i.v] = v
            return
        if isinstance(o, Data):
            self.write(o, 'entries %r assigned' % (i,))
            return
        if isinstance(o, Term) and o.op == 'attrs' and isinstance(i, Const):
            self.setattr(o.args[0], i.v, v)
            return
        raise Stuck('item assignment to %r' % (o,))

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.get('glob', ()):
                raise Stuck('global assignment')
            if t.id in env.get('nonloc', ()):
                e = env['up']
                while e is not None and t.id not in e['v']:
                    e = e['up']
                if e is None:
                    raise Stuck('nonlocal')
            e['v'][t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Term) and v.op == 'shape':
                xs = [dim(v.args[0], v.args[1], v.args[2], Const(i)) for i in range(v.args[2])]
            elif isinstance(v, (Term, Data)):
                xs = [self.getitem(v, Const(i)) for i in range(len(t.elts))]
            else:
                xs = self.iter(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                if len(xs) < len(t.elts) - 1:
                    raise PyRaise(Exc('ValueError'))
                parts = xs[:i] + [Seq('list', xs[i:len(xs) - after])] + xs[len(xs) - after:]
                for q, x in zip(t.elts, parts):
                    self.assign(q.value if isinstance(q, ast.Starred) else q, x, env, mod)
                return
            if len(xs) != len(t.elts):
                raise PyRaise(Exc('ValueError'))
            for q, x in zip(t.elts, xs):
                self.assign(q, x, env, mod)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env, mod), self.index(t.slice, env, mod), v)
        else:
            raise Stuck('assignment target')

    def st_If(self, s, env, mod):
        self.block(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)

    def st_Return(self, s, env, mod):
        raise _Ret(self.ev(s.value, env, mod) if s.value is not None else NONE)

    def st_Raise(self, s, env, mod):
        if s.exc is None:
            if env_exc(env) is not None:
                raise PyRaise(env_exc(env))
            raise Stuck('re-raise')
        v = self.ev(s.exc, env, mod)
        if s.cause is not None:
            self.ev(s.cause, env, mod)
        raise PyRaise(self.as_exc(v))

    def as_exc(self, v):
        if isinstance(v, Exc):
            return v
        if isinstance(v, Cls):
            return Exc(v)
        if isinstance(v, Term) and v.op == 'ext':
            return Exc(v.args[0].split('.')[-1])
        if isinstance(v, Term) and v.op == 'call' and v.args[0].op == 'ext':
            return Exc(v.args[0].args[0].split('.')[-1])
        raise Stuck('raise of %r' % (v,))

    def st_For(self, s, env, mod):
        for x in self.iter(self.ev(s.iter, env, mod)):
            self.assign(s.target, x, env, mod)
            try:
                self.block(s.body, env, mod)
            except _Brk:
                return
            except _Cnt:
                continue
        self.block(s.orelse, env, mod)

    def st_While(self, s, env, mod):
        n = 0
        while True:
            t = self.ev(s.test, env, mod)
            if not isinstance(t, Const) and n > 3:
                raise Stuck('while')
            if not self.truth(t):
                break
            n += 1
            if n > 2000:
                raise Stuck('while')
            try:
                self.block(s.body, env, mod)
            except _Brk:
                return
            except _Cnt:
                continue
        self.block(s.orelse, env, mod)

    def st_Break(self, s, env, mod):
        raise _Brk()

    def st_Continue(self, s, env, mod):
        raise _Cnt()

    def st_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            raise PyRaise(Exc('AssertionError'))

    def st_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env['v'].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env, mod), t.attr)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, env, mod), self.index(t.slice, env, mod)
                if isinstance(o, Dct):
                    o.d.pop(vkey(i), None)
                else:
                    raise Stuck('del')

    def st_Global(self, s, env, mod):
        env.setdefault('glob', set()).update(s.names)

    def st_Nonlocal(self, s, env, mod):
        env.setdefault('nonloc', set()).update(s.names)

    def st_With(self, s, env, mod):
        for i in s.items:
            v = self.ev(i.context_expr, env, mod)
            if isinstance(v, Obj):
                raise Stuck('with')
            if isinstance(v, Term) and v.op == 'call' and isinstance(v.args[0], Term) and v.args[0].op == 'ext' and 'suppress' in v.args[0].args[0]:
                raise Stuck('suppress')
            if i.optional_vars is not None:
                self.assign(i.optional_vars, Sym('context'), env, mod)
        self.block(s.body, env, mod)

    def st_Try(self, s, env, mod):
        try:
            try:
                self.block(s.body, env, mod)
            except PyRaise as r:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env, mod)
                        ts = t.xs if isinstance(t, Seq) else [t]
                        ok = any((x.name if isinstance(x, Cls) else x.args[0].split('.')[-1]) in r.exc.names() for x in ts
                                 if isinstance(x, Cls) or isinstance(x, Term) and x.op == 'ext')
                    if ok:
                        old = env.get('exc')
                        env['exc'] = r.exc
                        if h.name:
                            env['v'][h.name] = r.exc
                        try:
                            self.block(h.body, env, mod)
                        finally:
                            env['exc'] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, mod)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env, mod)

    def st_FunctionDef(self, s, env, mod):
        self.assign_name(s.name, self.func(s, env, mod), env)

    def assign_name(self, n, v, env):
        env['v'][n] = v

    def func(self, s, env, mod, cls=None, up='env'):
        f = Func(s, env if up == 'env' else up, mod, cls)
        f.defaults = [self.ev(d, env, mod) for d in s.args.defaults]
        f.kwdefaults = [self.ev(d, env, mod) if d is not None else None for d in s.args.kw_defaults]
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env, mod)
            if isext(dv, 'staticmethod', 'classmethod', 'property'):
                v = Deco(dv.args[0], v)
            elif isinstance(dv, Func):
                v = self.call(dv, [v], {}, None)
            else:
                v = Deco('unknown', v)
                f.unknown = True
        return v

    def st_ClassDef(self, s, env, mod):
        c = Cls(s.name, [self.ev(b, env, mod) for b in s.bases] or [Ext('object')], mod)
        if s.keywords or s.decorator_list:
            raise Stuck('class %s' % s.name)
        en = {'v': c.attrs, 'up': env}
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                c.attrs[x.name] = self.func(x, en, mod, cls=c, up=env)
            else:
                self.block([x], en, mod)
        self.assign_name(s.name, c, env)

    def st_Import(self, s, env, mod):
        for a in s.names:
            env['v'][a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])

    def st_ImportFrom(self, s, env, mod):
        for a in s.names:
            env['v'][a.asname or a.name] = self.prog.imported(s.module, s.level, a.name)


def env_exc(env):
    while env is not None:
        if env.get('exc') is not None:
            return env['exc']
        env = env['up']
    return None


def walk_own(node):
    st = list(ast.iter_child_nodes(node))
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st += list(ast.iter_child_nodes(x))


def short(v):
    return Term('sym', repr(v)[:40], None)


BASE_ATTRS = {'_validate_data', 'get_params', 'set_params', '_check_n_features', '_check_feature_names', '_get_param_names', '__repr__', '__getstate__',
              '__setstate__', '_more_tags', '_get_tags', '__init__', '__class__', '__dict__', 'score', 'n_features_in_', '__sklearn_clone__'}


def known_base_attr(base, name):
    return name in BASE_ATTRS and name not in ('n_features_in_',)


class PyProgram:
    """the modules of the Python package"""

    def __init__(self, root, package='sparseglm'):
        self.root, self.package = root, package
        self.modules = {}
        self.native_raises = []
        self.ext_raises = False
        self.ranks = {}

    def native_rank(self, cls, meth):
        return self.ranks.get((cls, meth))

    def path(self, name):
        return os.path.join(self.root, *name.split('.')) + '.py'

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = self.path(name)
        src = open(p).read()
        tree = ast.parse(src, p)
        m = Module(self.package + '.' + name)
        self.modules[name] = m
        m.tree = tree
        m.file = os.path.relpath(p, self.root)
        I = Interp(self)
        env = {'v': m.env, 'up': None}
        for s in tree.body:
            try:
                I.block([s], env, m)
            except (Stuck, PyRaise):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.env.setdefault(n.id, Sym('module variable ' + n.id))
        return m

    def imported(self, module, level, name):
        pk = self.package
        if level == 1 or (level == 0 and module and (module == pk or module.startswith(pk + '.'))):
            rel = module if level == 1 else (module[len(pk) + 1:] or None)
            if rel is None:
                if os.path.exists(self.path(name)):
                    return self.module(name)
                return Ext(pk + '.' + name)
            if os.path.exists(self.path(rel)):
                m = self.module(rel)
                if name in m.env:
                    return m.env[name]
                raise PyRaise(Exc('ImportError'))
            return Ext('%s.%s.%s' % (pk, rel, name))
        if level > 1:
            raise Stuck('relative import')
        return Ext('%s.%s' % (module, name))


class Outcome:
    def __init__(self, kind, val, I):
        self.kind, self.val, self.I = kind, val, I

    def __repr__(self):
        return '%s %r' % (self.kind, self.val)


def paths(prog, body, oracle=None, limit=400):
    """every path of `body(I)`: ('return', value) | ('raise', Exc) | ('unknown', why)"""
    out = []
    todo = [[]]
    while todo:
        ch = todo.pop()
        if len(out) >= limit:
            I = Interp(prog)
            out.append(Outcome('unknown', 'more than %d paths' % limit, I))
            return out
        I = Interp(prog, ch, oracle)
        try:
            o = Outcome('return', body(I), I)
        except PyRaise as r:
            o = Outcome('raise', r.exc, I)
        except Stuck as s:
            o = Outcome('unknown', str(s), I)
        except (_Brk, _Cnt, _Ret):
            o = Outcome('unknown', 'control flow', I)
        except RecursionError:
            o = Outcome('unknown', 'recursion', I)
        out.append(o)
        for i in range(len(I.taken) - 1, len(ch) - 1, -1):
            todo.append(I.taken[:i] + [not I.taken[i]])
    return out


def dim(who, tr, rank, i):
    k = i.v
    if k < 0:
        k += rank
    if not 0 <= k < rank:
        raise PyRaise(Exc('IndexError'))
    if tr and rank == 2:
        k = 1 - k
    return Term('dim', who, Const(k))
