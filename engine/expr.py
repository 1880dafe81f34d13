"""Hash-consed value graph.

Every node is an `E(op, args)`.  Constructors below do light, sound (real/integer arithmetic)
simplification only; comparisons of floats are kept raw so that NaN behaviour can still be read off.
"""
from fractions import Fraction
import itertools

_tab = {}
_uid = itertools.count(1)


class E:
    __slots__ = ('op', 'args', 'id', '_fv', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, *args):
    k = (op, args)
    e = _tab.get(k)
    if e is None:
        e = E()
        e.op = op
        e.args = args
        e.id = next(_uid)
        e._fv = None
        _tab[k] = e
    return e


def num(x):
    return mk('num', Fraction(x))


ZERO, ONE, MONE = num(0), num(1), num(-1)
TRUE, FALSE = mk('bool', True), mk('bool', False)
INF, NINF, NAN = mk('inf'), mk('ninf'), mk('nan')

# ------------------------------------------------------------------ symbols
SYM_INFO = {}
_fresh = itertools.count(1)


def sym(name, sort='R', **info):
    """sort: R real, N usize, Z integer, B bool, A array, O opaque object"""
    e = mk('sym', name, sort)
    if info:
        SYM_INFO.setdefault(e, {}).update(info)
    return e


def fresh(name, sort='R', **info):
    return sym('%s#%d' % (name, next(_fresh)), sort, **info)


def fresh_mark():
    return next(_fresh)


def local_syms(syms, mark):
    """symbols created at or after the mark (results of inner loops: they stand for a different value in each iteration)"""
    return {s for s in syms if s.op == 'sym' and '#' in s.args[0] and int(s.args[0].rsplit('#', 1)[1]) >= mark}


BV_N = {}  # bound var -> upper bound expr (0 <= bv < n)


def bvar(n, hint='q'):
    b = mk('bv', next(_fresh), hint)
    BV_N[b] = n
    return b


def is_num(e):
    return e.op == 'num'


def val(e):
    return e.args[0]


def children(e):
    for a in e.args:
        if isinstance(a, E):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, E):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, E):
                            yield c


def walk(e, seen=None):
    """all distinct sub-nodes (including under binders)"""
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


BINDERS = {'sum', 'maxr', 'minr', 'any', 'prod', 'first', 'last', 'scat', 'argbest'}


def free(e):
    """free syms and bound vars"""
    if e._fv is not None:
        return e._fv
    # iterative post-order to avoid deep recursion
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        if x._fv is not None:
            continue
        if not done:
            stack.append((x, True))
            for c in children(x):
                if c._fv is None:
                    stack.append((c, False))
        else:
            if x.op in ('sym', 'bv'):
                s = frozenset([x])
            else:
                s = set()
                for c in children(x):
                    s |= c._fv
                if x.op in BINDERS:
                    s.discard(x.args[0])
                elif x.op == 'lam':
                    s -= set(x.args[0])
                s = frozenset(s)
            x._fv = s
    return e._fv


# ------------------------------------------------------------------ arithmetic
def lin(e):
    """e as {monomial-node: coeff} + const, collecting top-level adds / numeric factors"""
    out = {}
    c = Fraction(0)
    st = [(e, Fraction(1))]
    while st:
        x, k = st.pop()
        if x.op == 'num':
            c += k * x.args[0]
        elif x.op == 'add':
            for a in x.args:
                st.append((a, k))
        elif x.op == 'mul' and x.args[0].op == 'num':
            rest = x.args[1:]
            r = rest[0] if len(rest) == 1 else mk('mul', *rest)
            if r.op == 'add':
                st.append((r, k * x.args[0].args[0]))
            else:
                out[r] = out.get(r, 0) + k * x.args[0].args[0]
        else:
            out[x] = out.get(x, 0) + k
    return {a: b for a, b in out.items() if b != 0}, c


def unlin(d, c):
    ts = []
    for m, k in sorted(d.items(), key=lambda t: t[0].id):
        if k == 0:
            continue
        if k == 1:
            ts.append(m)
        else:
            ts.append(mk('mul', num(k), *(m.args if m.op == 'mul' else (m,))))
    if c != 0:
        ts.append(num(c))
    if not ts:
        return ZERO
    if len(ts) == 1:
        return ts[0]
    return mk('add', *ts)


def special(e):
    return e.op in ('inf', 'ninf', 'nan')


def add(*xs):
    xs = [x for x in xs if x is not ZERO]
    if not xs:
        return ZERO
    if len(xs) == 1:
        return xs[0]
    if any(special(x) for x in xs):
        sp = {x.op for x in xs if special(x)}
        if sp == {'inf'}:
            return INF
        if sp == {'ninf'}:
            return NINF
        return NAN
    d, c = {}, Fraction(0)
    for x in xs:
        dx, cx = lin(x)
        c += cx
        for m, k in dx.items():
            d[m] = d.get(m, 0) + k
    return unlin(d, c)


def mul(*xs):
    c = Fraction(1)
    fs = []
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x.op == 'num':
            c *= x.args[0]
        elif x.op == 'mul':
            st.extend(x.args[::-1])
        else:
            fs.append(x)
    if any(special(f) for f in fs):
        if len(fs) == 1 and c != 0:
            f = fs[0]
            if f.op == 'nan':
                return NAN
            return f if c > 0 else (NINF if f is INF else INF)
        return NAN
    if c == 0:
        return ZERO
    fs.sort(key=lambda e: e.id)
    if not fs:
        return num(c)
    if c == 1 and len(fs) == 1:
        return fs[0]
    if len(fs) == 1 and fs[0].op == 'add':
        d, k = lin(fs[0])
        return unlin({m: v * c for m, v in d.items()}, k * c)
    if c == 1:
        return mk('mul', *fs)
    return mk('mul', num(c), *fs)


def neg(x):
    return mul(MONE, x)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if special(a) or special(b):
        return NAN if not (special(b) and b.op != 'nan' and not special(a)) else ZERO
    if is_num(b) and val(b) != 0:
        return mul(num(1 / val(b)), a)
    if a is ZERO and b is not ZERO:
        return mk('div', a, b) if is_num(b) else ZERO
    return mk('div', a, b)


def powi(x, n):
    """x ** n, n E"""
    if is_num(n) and val(n).denominator == 1:
        k = int(val(n))
        if k == 0:
            return ONE
        if k == 1:
            return x
        if 0 < k <= 4:
            return mul(*([x] * k))
        if k < 0:
            return div(ONE, powi(x, num(-k)))
    return mk('powf', x, n)


def isint(e):
    """statically integer-sorted?"""
    if e.op == 'num':
        return val(e).denominator == 1
    if e.op == 'sym':
        return e.args[1] in ('N', 'Z')
    if e.op == 'bv':
        return True
    if e.op in ('idiv', 'mod', 'shape', 'int', 'len'):
        return True
    if e.op in ('add', 'mul', 'imax', 'imin'):
        return all(isint(a) for a in e.args)
    if e.op == 'sel':
        return isint(e.args[1]) and isint(e.args[2])
    return False


def nonneg_int(e):
    """sound syntactic check: integer expression >= 0"""
    if e.op == 'num':
        return val(e) >= 0
    if e.op == 'sym':
        return e.args[1] == 'N'
    if e.op in ('bv', 'shape', 'len'):
        return True
    if e.op in ('idiv', 'mod', 'mul', 'add'):
        return all(nonneg_int(a) for a in e.args)
    if e.op == 'sel':
        return nonneg_int(e.args[1]) and nonneg_int(e.args[2])
    if e.op == 'imax':
        return any(nonneg_int(a) for a in e.args)
    if e.op == 'imin':
        return all(nonneg_int(a) for a in e.args)
    if e.op == 'int':
        return nonneg_int(e.args[0]) or e.args[1] == 'N'
    if e.op == 'elem':
        s = e.args[0]
        return s.op == 'sym' and SYM_INFO.get(s, {}).get('esort') == 'N'
    return False


def upper_lt(a, b, depth=0):
    """sound: a < b for integer expressions (using bound-variable ranges, n>=0 facts)."""
    d = sub(b, a)          # want d >= 1
    return lower(d, depth) is not None and lower(d, depth) >= 1


def lower(e, depth=0):
    """a sound constant lower bound of an integer expression, or None"""
    if depth > 6:
        return None
    d, c = lin(e)
    # replace bound variables with negative coefficients by their maximal value n-1
    for m, k in d.items():
        if k < 0:
            if m.op == 'bv':
                n = BV_N.get(m)
                if n is None:
                    return None
                rest = dict(d)
                del rest[m]
                return lower(add(unlin(rest, c), mul(num(k), sub(n, ONE))), depth + 1)
            if m.op == 'sym' and SYM_INFO.get(m, {}).get('lt') is not None:
                rest = dict(d)
                del rest[m]
                return lower(add(unlin(rest, c), mul(num(k), sub(SYM_INFO[m]['lt'], ONE))), depth + 1)
            if m.op == 'mod':
                rest = dict(d)
                del rest[m]
                return lower(add(unlin(rest, c), mul(num(k), sub(m.args[1], ONE))), depth + 1)
            if m.op == 'imin':
                for a in m.args:
                    rest = dict(d)
                    del rest[m]
                    r = lower(add(unlin(rest, c), mul(num(k), a)), depth + 1)
                    if r is not None:
                        return r
                return None
            if m.op == 'elem':
                ub = SYM_INFO.get(m.args[0], {}).get('emax')
                if ub is not None:
                    rest = dict(d)
                    del rest[m]
                    return lower(add(unlin(rest, c), mul(num(k), sub(ub, ONE))), depth + 1)
            if m.op == 'mul':
                # product of a bound variable with nonneg factors
                for f in m.args:
                    if f.op == 'sym' and SYM_INFO.get(f, {}).get('lt') is not None and all(nonneg_int(g) for g in m.args if g is not f):
                        rest = dict(d)
                        del rest[m]
                        g = [x for x in m.args if x is not f]
                        return lower(add(unlin(rest, c), expand(mul(num(k), sub(SYM_INFO[f]['lt'], ONE), *g))), depth + 1)
                    if f.op == 'bv' and f in BV_N and all(nonneg_int(g) for g in m.args if g is not f):
                        rest = dict(d)
                        del rest[m]
                        g = [x for x in m.args if x is not f]
                        return lower(add(unlin(rest, c), expand(mul(num(k), sub(BV_N[f], ONE), *g))), depth + 1)
            return None
        else:
            if not nonneg_int(m):
                if m.op == 'imax':
                    for a in m.args:
                        rest = dict(d)
                        del rest[m]
                        r = lower(add(unlin(rest, c), mul(num(k), a)), depth + 1)
                        if r is not None:
                            return r
                return None
    # all coefficients positive, all atoms >= 0; atoms known >= 1?
    for m, k in d.items():
        if k > 0:
            lo = 0
            if m.op == 'sym':
                lo = SYM_INFO.get(m, {}).get('min', 0)
            if m.op == 'bv':
                lo = 0
            if m.op == 'imax':
                for a in m.args:
                    if is_num(a):
                        lo = max(lo, val(a))
            c += k * lo
    return c


def expand(e):
    """distribute products over sums (integer index arithmetic)"""
    if e.op == 'add':
        return add(*[expand(a) for a in e.args])
    if e.op == 'mul':
        fs = [expand(a) for a in e.args]
        for i, f in enumerate(fs):
            if f.op == 'add':
                rest = fs[:i] + fs[i + 1:]
                return add(*[expand(mul(t, *rest)) for t in f.args])
        return mul(*fs)
    return e


# ------------------------------------------------------------------ booleans / comparisons
def boolc(b):
    return TRUE if b else FALSE


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', a)


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y not in out:
                out.append(y)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.args if x.op == 'or' else (x,)):
            if y not in out:
                out.append(y)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def ieq(a, b):
    if a is b:
        return TRUE
    d = expand(sub(a, b))
    if d is ZERO:
        return TRUE
    if is_num(d):
        return FALSE
    lo = lower(d)
    if lo is not None and lo >= 1:
        return FALSE
    lo = lower(neg(d))
    if lo is not None and lo >= 1:
        return FALSE
    if a.op == 'elem' and b.op == 'elem' and a.args[0] is b.args[0] and len(a.args) == 2 and SYM_INFO.get(a.args[0], {}).get('inj'):
        return ieq(a.args[1], b.args[1])
    if a.op == 'sel' and (is_num(a.args[1]) or is_num(a.args[2])) and is_num(b):
        return sel(a.args[0], ieq(a.args[1], b), ieq(a.args[2], b))
    if b.op == 'sel' and (is_num(b.args[1]) or is_num(b.args[2])) and is_num(a):
        return sel(b.args[0], ieq(a, b.args[1]), ieq(a, b.args[2]))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def ilt(a, b):
    if a is b:
        return FALSE
    d = expand(sub(b, a))
    if is_num(d):
        return boolc(val(d) > 0)
    lo = lower(d)
    if lo is not None and lo >= 1:
        return TRUE
    lo = lower(neg(d))
    if lo is not None and lo >= 0:
        return FALSE
    return mk('lt', a, b)


def ile(a, b):
    return not_(ilt(b, a))


def _known_order(a, b):
    """compare two extended constants; returns -1/0/1 or None"""
    def k(e):
        if e.op == 'num':
            return (0, val(e))
        if e is INF:
            return (1, 0)
        if e is NINF:
            return (-1, 0)
        return None
    ka, kb = k(a), k(b)
    if ka is None or kb is None:
        return None
    return (ka > kb) - (ka < kb)


def feq(a, b):
    if a is NAN or b is NAN:
        return FALSE
    o = _known_order(a, b)
    if o is not None:
        return boolc(o == 0)
    if a.id > b.id:
        a, b = b, a
    return mk('feq', a, b)


def flt(a, b):
    if a is NAN or b is NAN:
        return FALSE
    o = _known_order(a, b)
    if o is not None:
        return boolc(o < 0)
    return mk('flt', a, b)


def fle(a, b):
    if a is NAN or b is NAN:
        return FALSE
    o = _known_order(a, b)
    if o is not None:
        return boolc(o <= 0)
    return mk('fle', a, b)


def sel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return sel(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is FALSE:
        return and_(c, a)
    if b is TRUE:
        return or_(not_(c), a)
    if a.op == 'sel' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'sel' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('sel', c, a, b)


# ------------------------------------------------------------------ integers
def idiv(a, m):
    if is_num(a) and is_num(m) and val(m) != 0:
        return num(val(a) // val(m))
    if m is ONE:
        return a
    q, r = _divsplit(a, m)
    if q is not None:
        return q
    return mk('idiv', a, m)


def imod(a, m):
    if is_num(a) and is_num(m) and val(m) != 0:
        return num(val(a) % val(m))
    if m is ONE:
        return ZERO
    q, r = _divsplit(a, m)
    if q is not None:
        return r
    return mk('mod', a, m)


def _divsplit(a, m):
    """a = q*m + r with 0 <= r < m provable"""
    if a.op == 'mod' and a.args[1] is m:
        return ZERO, a
    a = expand(a)
    d, c = lin(a)
    q, r = {}, {}
    rc = c
    for t, k in d.items():
        fs = list(t.args) if t.op == 'mul' else [t]
        if m.op == 'mul':
            ok = True
            rem = list(fs)
            for g in m.args:
                if g.op == 'num':
                    if k % val(g) != 0:
                        ok = False
                        break
                    continue
                if g in rem:
                    rem.remove(g)
                else:
                    ok = False
                    break
            if ok:
                g0 = [val(g) for g in m.args if g.op == 'num']
                kk = k / g0[0] if g0 else k
                qq = mul(*rem) if rem else ONE
                q[qq] = q.get(qq, 0) + kk
                continue
        elif is_num(m):
            if k % val(m) == 0:
                q[t] = q.get(t, 0) + k / val(m)
                continue
        elif m in fs:
            rem = list(fs)
            rem.remove(m)
            qq = mul(*rem) if rem else ONE
            q[qq] = q.get(qq, 0) + k
            continue
        r[t] = k
    rr = unlin(r, rc)
    lo = lower(rr)
    if lo is None or lo < 0:
        return None, None
    if upper_lt(rr, m):
        qq = ZERO
        for t, k in q.items():
            qq = add(qq, mul(num(k), t))
        return qq, rr
    return None, None


def int_le(a, b, depth=6):
    """Structurally certain integer a <= b."""
    if a is b:
        return True
    lo = lower(sub(b, a))
    if lo is not None and lo >= 0:
        return True
    if depth == 0:
        return False
    d = depth - 1
    if a.op == 'imin' and any(int_le(x, b, d) for x in a.args):
        return True
    if a.op == 'imax' and all(int_le(x, b, d) for x in a.args):
        return True
    if a.op == 'sel':
        c, x, y = a.args
        okx = int_le(x, b, d) or (c.op == 'lt' and c.args[0] is x and c.args[1] is b)
        # not (b < y)  is  y <= b
        oky = int_le(y, b, d) or (c.op == 'lt' and c.args[0] is b and c.args[1] is y)
        if okx and oky:
            return True
    if b.op == 'imax' and any(int_le(a, x, d) for x in b.args):
        return True
    if b.op == 'imin' and all(int_le(a, x, d) for x in b.args):
        return True
    return False


def _compound(a):
    return a.op in ('imin', 'imax', 'sel')


def imax(a, b):
    if a is b:
        return a
    if is_num(a) and is_num(b):
        return a if val(a) >= val(b) else b
    lo = lower(sub(a, b))
    if lo is not None and lo >= 0:
        return a
    lo = lower(sub(b, a))
    if lo is not None and lo >= 0:
        return b
    if _compound(a) or _compound(b):
        if int_le(a, b):
            return b
        if int_le(b, a):
            return a
    if a.id > b.id:
        a, b = b, a
    return mk('imax', a, b)


INFN = sym('inf:n', 'N', min=1 << 62)      # length of an endless iterator


def imin(a, b):
    if a is b:
        return a
    if a is INFN or b is INFN:
        return b if a is INFN else a
    if is_num(a) and is_num(b):
        return a if val(a) <= val(b) else b
    lo = lower(sub(a, b))
    if lo is not None and lo >= 0:
        return b
    lo = lower(sub(b, a))
    if lo is not None and lo >= 0:
        return a
    if _compound(a) or _compound(b):
        if int_le(a, b):
            return a
        if int_le(b, a):
            return b
    if a.id > b.id:
        a, b = b, a
    return mk('imin', a, b)


# ------------------------------------------------------------------ unary real functions
def fabs(a):
    if is_num(a):
        return num(abs(val(a)))
    if a is INF or a is NINF:
        return INF
    return mk('abs', a)


def fsign(a):
    if is_num(a) and val(a) != 0:
        return num(1 if val(a) > 0 else -1)
    return mk('sign', a)


def fsqrt(a):
    if a is ZERO or a is ONE:
        return a
    return mk('sqrt', a)


def fmax(a, b):
    o = _known_order(a, b)
    if o is not None:
        return a if o >= 0 else b
    return mk('max', a, b)


def fmin(a, b):
    o = _known_order(a, b)
    if o is not None:
        return a if o <= 0 else b
    return mk('min', a, b)


def un(op, a):
    if op == 'exp' and a is ZERO:
        return ONE
    if op == 'ln' and a is ONE:
        return ZERO
    return mk(op, a)


def powf(a, b):
    if is_num(b) and val(b).denominator == 1 and 0 <= val(b) <= 4:
        return powi(a, b)
    if is_num(b) and val(b) == Fraction(1, 2):
        return fsqrt(a)
    return mk('powf', a, b)


# ------------------------------------------------------------------ reductions
def _cap(bv, body, e):
    return bv in free(e)


def sum_(bv, n, body):
    if body is ZERO or n is ZERO:
        return ZERO
    if n is ONE:
        return subst(body, {bv: ZERO})
    # delta rule: sum_q sel(q == e and rest, v, 0)
    r = _delta(bv, n, body)
    if r is not None:
        return r
    if body.op == 'sel' and body.args[2] is ZERO:
        c = body.args[0]
        cs = list(c.args) if c.op == 'and' else [c]
        inv = [x for x in cs if bv not in free(x)]
        if inv:
            rest = sel(and_(*[x for x in cs if bv in free(x)]), body.args[1], ZERO)
            return sel(and_(*inv), sum_(bv, n, rest), ZERO)
    return mk('sum', bv, n, body)


def _delta(bv, n, body):
    if body.op == 'sel' and body.args[2] is ZERO:
        c = body.args[0]
        cs = list(c.args) if c.op == 'and' else [c]
        for x in cs:
            if x.op == 'eq':
                for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                    e = solve_for(bv, a, b)
                    if e is not None:
                        rest = [y for y in cs if y is not x]
                        inr = and_(ile(ZERO, e), ilt(e, n))
                        return subst(sel(and_(inr, *rest), body.args[1], ZERO), {bv: e})
    if body.op == 'mul':
        # coefficient times a delta
        for i, f in enumerate(body.args):
            if f.op == 'sel' and f.args[2] is ZERO:
                o = mul(*(body.args[:i] + body.args[i + 1:]))
                return _delta(bv, n, sel(f.args[0], mul(o, f.args[1]), ZERO))
    return None


def solve_for(bv, a, b):
    """if a == b determines bv = e (unit coefficient), return e"""
    d, c = lin(expand(sub(a, b)))
    k = d.get(bv)
    if k is None or abs(k) != 1:
        return None
    rest = {m: v for m, v in d.items() if m is not bv}
    if any(bv in free(m) for m in rest):
        return None
    e = unlin({m: -v / k for m, v in rest.items()}, -c / k)
    return e


def any_(bv, n, body):
    if body is FALSE or n is ZERO:
        return FALSE
    if n is ONE:
        return subst(body, {bv: ZERO})
    if bv not in free(body):
        return and_(ilt(ZERO, n), body)
    if body.op == 'or':
        return or_(*[any_(bv, n, x) for x in body.args])
    cs = list(body.args) if body.op == 'and' else [body]
    inv = [x for x in cs if bv not in free(x)]
    if inv:
        return and_(*inv, any_(bv, n, and_(*[x for x in cs if bv in free(x)])))
    for x in cs:
        if x.op == 'eq':
            for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                e = solve_for(bv, a, b)
                if e is not None:
                    rest = [y for y in cs if y is not x]
                    return and_(ile(ZERO, e), ilt(e, n), subst(and_(*rest), {bv: e}))
    return mk('any', bv, n, body)


def scat_(bv, n, cond, v, init):
    """the last v with cond, init if there is none; a condition that fixes the position needs no search"""
    if cond.op == 'eq':
        for a, b in ((cond.args[0], cond.args[1]), (cond.args[1], cond.args[0])):
            e = solve_for(bv, a, b)
            if e is not None:
                return sel(and_(ile(ZERO, e), ilt(e, n)), subst(v, {bv: e}), init)
    return mk('scat', bv, n, cond, v, init)


def red(op, bv, n, body, init):
    if n is ZERO:
        return init
    if bv not in free(body) and body.op == 'num':
        c = body if init is (NINF if op == 'maxr' else INF) else (fmax if op == 'maxr' else fmin)(body, init)
        return sel(ilt(ZERO, n), c, init)
    return mk(op, bv, n, body, init)


def app(name, *args):
    return mk('app', name, *args)


def elem(a, *idx):
    if a.op == 'lam':
        return subst(a.args[2], dict(zip(a.args[0], idx)))
    if a.op == 'sel':
        return sel(a.args[0], elem(a.args[1], *idx), elem(a.args[2], *idx))
    return mk('elem', a, *idx)


def shape(a, k):
    if a.op == 'lam':
        return a.args[1][k]
    s = SYM_INFO.get(a, {}).get('shape')
    if s is None and a.op == 'app' and a.args[0] in APP_SHAPE:
        s = APP_SHAPE[a.args[0]](a)
    if s is not None:
        return s[k]
    return mk('shape', a, k)


APP_SHAPE = {}          # uninterpreted function name -> shape of its value


def top(why, *deps):
    """unknown value, remembering what it may depend on"""
    ds = []
    for d in deps:
        for x in ([d] if isinstance(d, E) else []):
            ds.append(x)
    return mk('top', next(_fresh), why, tuple(ds))


def has_top(e):
    return any(x.op == 'top' for x in walk(e))


REBUILD = {
    'add': add, 'mul': mul, 'div': div, 'not': not_, 'and': and_, 'or': or_, 'sel': sel,
    'eq': ieq, 'lt': ilt, 'feq': feq, 'flt': flt, 'fle': fle, 'idiv': idiv, 'mod': imod,
    'imax': imax, 'imin': imin, 'abs': fabs, 'sign': fsign, 'sqrt': fsqrt, 'max': fmax, 'min': fmin,
    'powf': powf, 'elem': elem, 'shape': shape, 'sum': sum_, 'any': any_, 'scat': scat_,
}


def _map_arg(a, f):
    if isinstance(a, E):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_arg(x, f) for x in a)
    return a


def subst(e, m, memo=None):
    """capture-avoiding because bound variables are globally unique; binders whose range mentions a
    substituted variable get a fresh bound variable (ranges are part of BV_N)."""
    if not m:
        return e
    keys = set(m)
    if memo is None:
        memo = {}

    def go(x):
        if x.op in ('sym', 'bv'):
            return m.get(x, x)
        r = memo.get(x)
        if r is not None:
            return r
        if not (free(x) & keys):
            memo[x] = x
            return x
        if x.op in BINDERS:
            bv = x.args[0]
            n2 = go(x.args[1])
            if n2 is not x.args[1]:
                nb = bvar(n2, bv.args[1])
                # rename first
                m2 = dict(m)
                m2[bv] = nb
                rest = [subst(a, m2) if isinstance(a, E) else a for a in x.args[2:]]
                r = REBUILD.get(x.op, lambda *a, _o=x.op: mk(_o, *a))(nb, n2, *rest)
            else:
                rest = [go(a) if isinstance(a, E) else _map_arg(a, go) for a in x.args[2:]]
                r = REBUILD.get(x.op, lambda *a, _o=x.op: mk(_o, *a))(bv, n2, *rest)
        elif x.op == 'lam':
            bvs, shp, body = x.args
            shp2 = tuple(go(s) for s in shp)
            if shp2 != shp:
                nb = tuple(bvar(s, b.args[1]) for s, b in zip(shp2, bvs))
                m2 = dict(m)
                m2.update(zip(bvs, nb))
                r = mk('lam', nb, shp2, subst(body, m2))
            else:
                r = mk('lam', bvs, shp2, go(body))
        else:
            args = tuple(_map_arg(a, go) for a in x.args)
            f = REBUILD.get(x.op)
            r = f(*args) if f else mk(x.op, *args)
        memo[x] = r
        return r

    return go(e)


def replace(e, m):
    """replace arbitrary sub-nodes (no binder handling beyond subst semantics)"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('sym', 'bv', 'num', 'bool'):
            return x
        args = tuple(_map_arg(a, go) for a in x.args)
        if args == x.args:
            r = x
        else:
            f = REBUILD.get(x.op)
            r = f(*args) if f else mk(x.op, *args)
        memo[x] = r
        return r
    return go(e)


# ------------------------------------------------------------------ printing
def show(e, depth=0):
    if depth > 14:
        return '…'
    s = lambda x: show(x, depth + 1)
    o, a = e.op, e.args
    if o == 'num':
        return str(a[0])
    if o == 'bool':
        return str(a[0]).lower()
    if o == 'sym':
        return a[0]
    if o == 'bv':
        return '%s%s' % (a[1], a[0] if isinstance(a[0], int) else '_'.join(map(str, a[0])))
    if o == 'add':
        return '(' + ' + '.join(map(s, a)) + ')'
    if o == 'mul':
        return '*'.join(map(s, a))
    if o == 'div':
        return '(%s / %s)' % (s(a[0]), s(a[1]))
    if o in ('lt', 'flt'):
        return '(%s < %s)' % (s(a[0]), s(a[1]))
    if o == 'fle':
        return '(%s <= %s)' % (s(a[0]), s(a[1]))
    if o in ('eq', 'feq'):
        return '(%s == %s)' % (s(a[0]), s(a[1]))
    if o == 'not':
        return '!' + s(a[0])
    if o == 'and':
        return '(' + ' & '.join(map(s, a)) + ')'
    if o == 'or':
        return '(' + ' | '.join(map(s, a)) + ')'
    if o == 'sel':
        return '(%s ? %s : %s)' % tuple(map(s, a))
    if o == 'elem':
        return '%s[%s]' % (s(a[0]), ','.join(map(s, a[1:])))
    if o in ('sum', 'any', 'maxr', 'minr', 'prod', 'first', 'last', 'scat'):
        return '%s{%s<%s}(%s)' % (o, s(a[0]), s(a[1]), ', '.join(s(x) if isinstance(x, E) else str(x) for x in a[2:]))
    if o == 'lam':
        return '[|%s<%s| %s]' % (','.join(map(s, a[0])), ','.join(map(s, a[1])), s(a[2]))
    if o == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) if isinstance(x, E) else str(x) for x in a[1:]))
    if o == 'top':
        return 'TOP<%s>' % a[1]
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, E) else str(x) for x in a))
