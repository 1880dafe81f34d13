"""Sample points: exact rational assignments used (a) to name one cell of the guard arrangement of a value graph
(which side of each comparison the cell lies on) and (b) to certify that two different normal forms really differ.

Nothing of the analysed program is executed: `ev` interprets nodes of the value graph only.
"""
from fractions import Fraction
import itertools
import math
import hashlib
from expr import *


class Uneval(Exception):
    pass


class Uncertain(Exception):
    """a comparison too close to call in floating point"""


EPS = 1e-9
MAXINT = 64


def _h(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), 'big')


ELEMS = [Fraction(x) for x in ('1/2', '-1/3', '2', '-3/2', '1', '-1', '7/5', '-9/4', '3', '-1/7', '5/3', '-4', '1/11', '-2/9', '11/2', '13/6')]


GUARDS = {'eq', 'feq', 'lt', 'flt', 'fle', 'max', 'min', 'imax', 'imin', 'abs', 'sign'}
NONNEG_ELEMS = {'lipschitz'}  # ... whose entries are
NONNEG = {'dist'}       # uninterpreted functions that are non-negative and may vanish


WORK = [0]              # evaluation steps so far


class Sigma:
    """scal: {E sym: Fraction/int/bool}; arrs: {E array sym: function(*idx) -> value}; dims for N symbols default by hash"""

    def __init__(self, scal=None, arrs=None, seed=0, dims=None, nmin=1, nmax=3):
        self.scal = dict(scal or {})
        self.arrs = dict(arrs or {})
        self.seed = seed
        self.memo = {}
        self.ext = {}
        self.nmin, self.nmax = nmin, nmax
        self.pool = None            # values for array entries; None: ELEMS
        self.forced = {}            # values chosen for single uninterpreted terms or array entries
        self.ieee = 0               # +1 / -1: a division by zero is the IEEE value for a zero of that sign
        self.inst = {}              # guard outcomes met while evaluating, per instance of the bound variables

    def sub(self, extra):
        s = Sigma(self.scal, self.arrs, self.seed, nmin=self.nmin, nmax=self.nmax)
        s.scal.update(extra)
        s.pool = self.pool
        s.forced = dict(self.forced)
        return s

    def leaf_key(self, e, env):
        """identifies the free choice behind a scalar leaf; None if it is not one"""
        if e.op == 'sym' and e.args[1] == 'R':
            return ('scal', e)
        if e.op == 'elem':
            idx = [self.ev(i, env) for i in e.args[1:]]
            b = e.args[0]
            if b.op == 'sym':
                if SYM_INFO.get(b, {}).get('esort') in ('N', 'Z') or SYM_INFO.get(b, {}).get('tied'):
                    return None
                if b in self.arrs and not isinstance(self.elem(b, idx), Fraction):
                    return None
                return ('sym', b, tuple(int(i) for i in idx))
            if b.op == 'app':
                return ('elem', self.key(b, env), tuple(str(i) for i in idx))
        if e.op == 'app':
            return ('app', self.key(e, env), ())
        return None

    def force(self, key, v):
        s = self.sub({key[1]: v} if key[0] == 'scal' else {})
        if key[0] != 'scal':
            s.forced[key] = v
        return s

    def guards(self, *es):
        """guard outcomes met when evaluating: one set per binder instance; None where evaluation stops"""
        for e in es:
            try:
                self.ev(e)
            except (Uneval, Uncertain):
                pass
        # two binders over the same range (one on each side of a comparison) are at one point when their variables have equal values
        at = {}
        for k, v in self.inst.items():
            at.setdefault(tuple(x for _, x in k), set()).update(v)
        top = at.get((), set())
        return {frozenset(v | top) for v in at.values()}

    def default(self, e):
        sort = e.args[1]
        h = _h(self.seed, e.args[0])
        info = SYM_INFO.get(e, {})
        if sort == 'N':
            lo = max(self.nmin, info.get('min', 0))
            return lo + h % max(1, self.nmax - lo + 1)
        if sort == 'Z':
            return h % 5 - 2
        if sort == 'B':
            return bool(h & 1)
        v = ELEMS[h % len(ELEMS)]
        if info.get('nonneg'):
            v = abs(v)
        return v

    def elem(self, a, idx):
        if self.forced and ('sym', a, tuple(int(i) for i in idx)) in self.forced:
            return self.forced[('sym', a, tuple(int(i) for i in idx))]
        f = self.arrs.get(a)
        if f is not None:
            return f(*idx)
        info = SYM_INFO.get(a, {}) if a.op == 'sym' else {}
        h = _h(self.seed, a.args[0] if a.op == 'sym' else a.id, tuple(int(i) for i in idx))
        if info.get('esort') in ('N', 'Z'):
            ub = info.get('emax')
            n = self.ev(ub) if ub is not None else 3
            return h % max(1, int(n))
        pool = self.pool or ELEMS
        return pool[h % len(pool)]

    # ------------------------------------------------------------------
    def ev(self, e, env=None):
        env = env or {}
        fv = free(e)
        k = (e.id,) + tuple(sorted((b.id, env[b]) for b in fv if b in env)) if env else (e.id,)
        r = self.memo.get(k)
        if r is None:
            WORK[0] += 1
            r = self._ev(e, env)
            self.memo[k] = r
            if e.op in GUARDS:
                if e.op in ('eq', 'feq', 'lt', 'flt', 'fle'):
                    o = bool(r)
                elif e.op == 'abs':
                    o = (lambda v: (v > 0) - (v < 0))(self.ev(e.args[0], env))
                elif e.op == 'sign':
                    o = r > 0
                else:
                    o = r == self.ev(e.args[0], env)
                self.inst.setdefault(k[1:], set()).add((e.id, o))
        if isinstance(r, Exception):
            raise r
        return r

    def size(self, e, env):
        n = self.ev(e, env)
        n = int(n)
        if n > MAXINT:
            raise Uneval('range')
        return max(n, 0)

    def cmp(self, a, b):
        if isinstance(a, Fraction) or isinstance(a, int):
            if isinstance(b, Fraction) or isinstance(b, int):
                return (a > b) - (a < b)
        if isinstance(a, bool) or isinstance(b, bool):
            raise Uneval('bool order')
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            raise Uneval('nan')
        if math.isinf(a) or math.isinf(b):
            return (a > b) - (a < b)
        if abs(a - b) <= EPS * max(1.0, abs(a), abs(b)):
            raise Uncertain()
        return -1 if a < b else 1

    def _ev(self, e, env):
        op, a = e.op, e.args
        ev = self.ev
        if op == 'num':
            return a[0]
        if op == 'bool':
            return a[0]
        if op == 'sym':
            if e in self.scal:
                return self.scal[e]
            if a[1] in ('A', 'O'):
                return ('arr', e)
            v = self.default(e)
            self.scal[e] = v
            return v
        if op == 'bv':
            if e in env:
                return env[e]
            raise Uneval('free bv')
        if op == 'inf':
            return math.inf
        if op == 'ninf':
            return -math.inf
        if op == 'nan':
            return math.nan
        if op == 'add':
            r = Fraction(0)
            for x in a:
                r = r + ev(x, env)
            return r
        if op == 'mul':
            r = Fraction(1)
            for x in a:
                v = ev(x, env)
                r = r * v
            return r
        if op == 'div':
            x, y = ev(a[0], env), ev(a[1], env)
            if y == 0:
                if self.ieee:
                    return math.nan if x == 0 or x != x else math.inf * self.ieee * (1 if x > 0 else -1)
                raise Uneval('division by zero')
            if isinstance(x, int) and isinstance(y, int):
                x = Fraction(x)
            return x / y
        if op == 'idiv' or op == 'mod':
            x, y = ev(a[0], env), ev(a[1], env)
            if y == 0:
                raise Uneval('division by zero')
            return x // y if op == 'idiv' else x % y
        if op == 'int':
            return ev(a[0], env)
        if op == 'floor':
            return math.floor(ev(a[0], env))
        if op == 'not':
            return not ev(a[0], env)
        if op == 'and':
            for x in a:
                if not ev(x, env):
                    return False
            return True
        if op == 'or':
            for x in a:
                if ev(x, env):
                    return True
            return False
        if op == 'sel':
            return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
        if op in ('eq', 'feq'):
            x, y = ev(a[0], env), ev(a[1], env)
            if isinstance(x, bool) or isinstance(y, bool):
                return x is y
            if isinstance(x, tuple) or isinstance(y, tuple):
                return x == y
            return self.cmp(x, y) == 0
        if op in ('lt', 'flt'):
            return self.cmp(ev(a[0], env), ev(a[1], env)) < 0
        if op == 'fle':
            return self.cmp_le(ev(a[0], env), ev(a[1], env))
        if op == 'imax' or op == 'max':
            return self.mx(ev(a[0], env), ev(a[1], env), 1)
        if op == 'imin' or op == 'min':
            return self.mx(ev(a[0], env), ev(a[1], env), -1)
        if op == 'abs':
            return abs(ev(a[0], env))
        if op == 'sign':
            v = ev(a[0], env)
            if v == 0:
                raise Uncertain()
            return Fraction(1 if v > 0 else -1)
        if op == 'sqrt':
            v = ev(a[0], env)
            if v < 0:
                raise Uneval('sqrt of a negative number')
            if isinstance(v, (Fraction, int)):
                v = Fraction(v)
                p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if p * p == v.numerator and q * q == v.denominator:
                    return Fraction(p, q)
            return math.sqrt(v)
        if op == 'powf':
            x, y = ev(a[0], env), ev(a[1], env)
            if isinstance(x, Fraction) and isinstance(y, (Fraction, int)) and Fraction(y).denominator == 1 and (x != 0 or y > 0):
                return x ** int(y)
            try:
                return float(x) ** float(y) if x > 0 else (Fraction(0) if x == 0 and y > 0 else self.bad('pow'))
            except (OverflowError, ZeroDivisionError):
                raise Uneval('pow')
        if op in ('exp', 'ln', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'tanh', 'sinh', 'cosh'):
            v = ev(a[0], env)
            if v == 0 and op in ('exp', 'cos', 'cosh'):
                return Fraction(1)
            if v == 0 and op in ('sin', 'tan', 'asin', 'atan', 'tanh', 'sinh') or v == 1 and op in ('ln', 'acos'):
                return Fraction(0)
            f = {'ln': math.log}.get(op) or getattr(math, op)
            try:
                return f(float(v))
            except (ValueError, OverflowError):
                raise Uneval(op)
        if op == 'sum':
            n = self.size(a[1], env)
            r = Fraction(0)
            for i in range(n):
                r = r + ev(a[2], {**env, a[0]: i})
            return r
        if op == 'prod':
            r = ev(a[3], env)
            for i in range(self.size(a[1], env)):
                r = r * ev(a[2], {**env, a[0]: i})
            return r
        if op == 'any':
            for i in range(self.size(a[1], env)):
                if ev(a[2], {**env, a[0]: i}):
                    return True
            return False
        if op in ('maxr', 'minr'):
            r = ev(a[3], env)
            for i in range(self.size(a[1], env)):
                r = self.mx(r, ev(a[2], {**env, a[0]: i}), 1 if op == 'maxr' else -1)
            return r
        if op == 'first':
            for i in range(self.size(a[1], env)):
                if ev(a[2], {**env, a[0]: i}):
                    return i
            raise Uneval('first')
        if op == 'last':
            for i in reversed(range(self.size(a[1], env))):
                if ev(a[2], {**env, a[0]: i}):
                    return i
            raise Uneval('last')
        if op == 'scat':
            for i in reversed(range(self.size(a[1], env))):
                if ev(a[2], {**env, a[0]: i}):
                    return ev(a[3], {**env, a[0]: i})
            return ev(a[4], env)
        if op == 'elem':
            idx = [ev(i, env) for i in a[1:]]
            b = a[0]
            if b.op == 'sym':
                return self.elem(b, idx)
            return self.hashed('elem', b, env, idx)
        if op == 'shape':
            s = SYM_INFO.get(a[0], {}).get('shape') if a[0].op == 'sym' else None
            if s is not None:
                return ev(s[a[1]], env)
            return self.nmin + _h(self.seed, 'shape', self.key(a[0], env), a[1]) % max(1, self.nmax - self.nmin + 1)
        if op in ('app', 'fld', 'payload', 'proj', 'lit', 'str', 'isvar', 'iter', 'tup', 'adt', 'constpat', 'ord', 'iord'):
            if op == 'isvar':
                return bool(_h(self.seed, 'isvar', self.key(e, env)) & 1)
            return self.hashed('app', e, env, ())
        raise Uneval(op)

    def bad(self, why):
        raise Uneval(why)

    def cmp_le(self, x, y):
        return self.cmp(x, y) <= 0

    def with_ieee(self, sign):
        s = self.sub({})
        s.seed, s.ieee = self.seed, sign
        return s

    def mx(self, x, y, d):
        if x != x or y != y:
            raise Uneval('nan')
        if isinstance(x, float) and math.isinf(x):
            return y if (x < 0) == (d > 0) else x
        if isinstance(y, float) and math.isinf(y):
            return x if (y < 0) == (d > 0) else y
        return x if (x >= y) == (d > 0) else y

    def hashed(self, tag, e, env, idx):
        k = self.key(e, env)
        if self.forced and (tag, k, tuple(str(i) for i in idx)) in self.forced:
            return self.forced[(tag, k, tuple(str(i) for i in idx))]
        h = _h(self.seed, tag, k, tuple(str(i) for i in idx))
        v = ELEMS[h % len(ELEMS)] + Fraction(h % 97, 101)
        if e.op == 'app' and e.args[0] in NONNEG:
            return Fraction(0) if (h >> 20) % 5 == 0 else abs(v)
        if tag == 'elem' and e.op == 'app' and e.args[0] in NONNEG_ELEMS:
            return abs(v)
        return v

    def key(self, e, env):
        """congruence key of an uninterpreted value: its name and the values of its arguments"""
        if e.op == 'sym':
            if e.args[1] == 'A' and SYM_INFO.get(e, {}).get('shape'):
                # extensional, like the array written out
                k = self.ext.get(e)
                if k is None:
                    dims = [self.size(s, {}) for s in SYM_INFO[e]['shape']]
                    k = self.ext[e] = ('lam', tuple(dims), tuple(self.kv(self.elem(e, i)) for i in itertools.product(*map(range, dims))))
                return k
            if e.args[1] in ('A', 'O'):
                return e.args[0]
            return self.kv(self.ev(e, env))
        if e.op == 'lam':
            bvs, shp, body = e.args
            dims = [self.size(s, env) for s in shp]
            out = []

            def go(k, en):
                if k == len(dims):
                    out.append(self.key(body, en))
                    return
                for i in range(dims[k]):
                    go(k + 1, {**en, bvs[k]: i})
            go(0, env)
            return ('lam', tuple(dims), tuple(out))
        if e.op in ('app', 'fld', 'payload', 'proj', 'lit', 'str', 'isvar', 'iter', 'tup', 'adt', 'constpat', 'mutref'):
            def g(x):
                if isinstance(x, E):
                    return self.key(x, env)
                if isinstance(x, tuple):
                    return tuple(g(y) for y in x)
                return str(x)
            return (e.op,) + tuple(g(x) for x in e.args)
        return self.kv(self.ev(e, env))

    def kv(self, v):
        if isinstance(v, float):
            return '%.9g' % v
        if isinstance(v, Fraction) and v.denominator != 1:
            return '%.9g' % float(v)
        return str(v)
