"""Normal forms (generalised polynomials) of value-graph expressions, one cell of the guard arrangement at a time.

A polynomial is a dict  monomial -> Fraction; a monomial a sorted tuple of (atom id, exponent).  Atoms are interned
structural tuples.  All steps are identities of real arithmetic, so equal normal forms mean equal functions on the cell.
"""
from fractions import Fraction
import itertools
from expr import *
from sigma import *
from values import canon

ATOM_ID = {}
ATOMS = []
ATOM_H = []      # height: largest canonical bound variable index used inside + 1

CB = []          # canonical bound variables


def cb(k):
    while len(CB) <= k:
        CB.append(mk('bv', ('cb', len(CB)), 'c'))
    return CB[k]


def intern(a):
    i = ATOM_ID.get(a)
    if i is None:
        i = len(ATOMS)
        ATOM_ID[a] = i
        ATOMS.append(a)
        ATOM_H.append(None)
        ATOM_H[i] = _height(a)
    return i


def is_cb(b):
    return b.op == 'bv' and isinstance(b.args[0], tuple) and b.args[0][0] == 'cb'


def _height(a):
    k = a[0]
    if k in ('e', 'g'):
        return 1 + max([b.args[0][1] for b in free(a[1]) if is_cb(b)], default=-1)
    if k in ('fn',):
        return key_height(a[2])
    if k in ('poly', 'abs', 'sign'):
        return key_height(a[1])
    if k == 'sum':
        return max([1 + b.args[0][1] for b, _ in a[1]] + [mono_height(a[2])] + [key_height(n) for _, n in a[1]])
    if k == 'red':
        return max(1 + a[2].args[0][1], key_height(a[3]), key_height(a[4]), key_height(a[5]))
    if k == 'app':
        return max([argkey_height(x) for x in a[2]], default=0)
    return 0


def argkey_height(x):
    if isinstance(x, tuple) and x and x[0] == 'P':
        return key_height(x[1])
    if isinstance(x, tuple) and x and x[0] == 'L':
        return max([1 + b.args[0][1] for b in x[1]] + [argkey_height(x[3])] + [key_height(s) for s in x[2]])
    if isinstance(x, tuple) and x and x[0] == 'X':
        return 1 + max([b.args[0][1] for b in free(x[1]) if is_cb(b)], default=-1)
    if isinstance(x, tuple):
        return max([argkey_height(y) for y in x], default=0)
    return 0


def mono_height(m):
    return max([ATOM_H[i] for i, _ in m], default=0)


def key_height(k):
    return max([mono_height(m) for m, _ in k], default=0)


# ------------------------------------------------------------------ polynomials
def pkey(p):
    return tuple(sorted(p.items()))


def unkey(k):
    return dict(k)


def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        x = r.get(m, 0) + c * v
        if x == 0:
            r.pop(m, None)
        else:
            r[m] = x
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x == 0:
            d.pop(a, None)
        else:
            d[a] = x
    return tuple(sorted(d.items()))


def const(c):
    return {(): Fraction(c)} if c != 0 else {}


def patom(a, e=1):
    return {((intern(a), Fraction(e)),): Fraction(1)}


class TooBig(Exception):
    pass


class Norm:
    """normaliser for one sample point (which fixes the branch of every comparison)"""

    def __init__(self, sigma, limit=4000):
        self.s = sigma
        self.consults = {}
        self.memo = {}
        self.limit = limit
        self.facts = []

    # -------------------------------------------------------------- guards
    def ask(self, c):
        """truth value of a closed condition in this cell"""
        v = self.consults.get(c)
        if v is None:
            v = self.s.ev(c)
            self.consults[c] = v
        return v

    def closed(self, e):
        return not any(b.op == 'bv' for b in free(e))

    def sign_of(self, e):
        """sign of a closed real expression in this cell: decided by consulting e<0 / e>0"""
        k = ('sgn', e)
        if k in self.consults:
            return self.consults[k]
        v = self.s.ev(e)
        if isinstance(v, float):
            if abs(v) < EPS:
                raise Uncertain()
        r = (v > 0) - (v < 0)
        self.consults[k] = r
        return r

    # -------------------------------------------------------------- arithmetic
    def mulp(self, p, q):
        if len(p) * len(q) > self.limit:
            raise TooBig()
        r = {}
        fix = False
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mmul(m1, m2)
                x = r.get(m, 0) + c1 * c2
                if x == 0:
                    r.pop(m, None)
                else:
                    r[m] = x
        return self.fold(r)

    def fold(self, p):
        """renormalise monomials: poly atoms with exponent >= 1 are expanded; primes kept in [0,1); |x|^2k = x^2k"""
        todo = any(self.needs(a, e) for m in p for a, e in m)
        if not todo:
            return p
        out = {}
        for m, c in p.items():
            base = []
            exps = []
            for a, e in m:
                at = ATOMS[a]
                if at[0] == 'prime':
                    k = e.__floor__()
                    c = c * Fraction(at[1]) ** int(k)
                    if e - k:
                        base.append((a, e - k))
                elif at[0] == 'poly' and e >= 1:
                    k = int(e)
                    exps.append((at, k))
                    if e - k:
                        base.append((a, e - k))
                elif at[0] == 'abs' and e.denominator == 1 and e % 2 == 0:
                    exps.append((('poly', at[1]), int(e)))
                elif at[0] == 'sign' and e.denominator == 1:
                    if e % 2:
                        base.append((a, Fraction(1)))
                else:
                    base.append((a, e))
            q = {tuple(sorted(base)): c}
            for at, k in exps:
                q = self.mulp(q, self.powint(unkey(at[1]), k))
            out = padd(out, q)
        return out

    def needs(self, a, e):
        k = ATOMS[a][0]
        return (k == 'prime' and not (0 <= e < 1)) or (k == 'poly' and e >= 1) or (k == 'abs' and e.denominator == 1 and e % 2 == 0) or (k == 'sign' and e != 1)

    def powint(self, p, k):
        if k < 0:
            return self.pow(p, Fraction(k))
        r = const(1)
        for _ in range(k):
            r = self.mulp(r, p)
        return r

    def nonneg(self, a):
        at = ATOMS[a]
        k = at[0]
        if k in ('prime', 'abs'):
            return True
        if k == 'fn':
            return at[1] in ('exp', 'cosh')
        if k == 'e':
            e = at[1]
            if e.op == 'sym':
                return bool(SYM_INFO.get(e, {}).get('nonneg')) or e.args[1] == 'N'
            if e.op == 'shape' or e.op == 'bv':
                return True
            if e.op == 'elem' and e.args[0].op == 'sym':
                return bool(SYM_INFO.get(e.args[0], {}).get('enonneg'))
            return False
        if k == 'sum':
            return self.mono_nonneg(a and at[2])
        if k == 'poly':
            return self.poly_nonneg(unkey(at[1]))
        return False

    def mono_nonneg(self, m):
        return all((e.denominator == 1 and e % 2 == 0) or self.nonneg(a) or e.denominator % 2 == 0 for a, e in m)

    def poly_nonneg(self, p):
        return all(c > 0 and self.mono_nonneg(m) for m, c in p.items())

    def content(self, p):
        """(mono gcd, coefficient, primitive poly with leading coefficient 1)"""
        ms = list(p)
        common = None
        ex = {}
        for m in ms:
            d = dict(m)
            if common is None:
                common = set(d)
                ex = dict(d)
            else:
                for a in set(ex) | set(d):
                    ex[a] = min(ex.get(a, Fraction(0)), d.get(a, Fraction(0)))
        # only pull factors: common positive powers, and any negative powers
        g = tuple(sorted((a, e) for a, e in ex.items() if e != 0))
        gi = tuple((a, -e) for a, e in g)
        q = {mmul(m, gi): c for m, c in p.items()}
        lead = min(q)
        c = q[lead]
        return g, c, {m: v / c for m, v in q.items()}

    def numpow(self, c, r):
        """c**r for c>0 as poly with prime atoms"""
        if r.denominator == 1:
            return const(c ** int(r))
        out = {(): Fraction(1)}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            f = factorint(n)
            if f is None:
                return patom(('fn', 'powc', pkey(const(c)), r))
            for pr, k in f.items():
                out = self.mulp(out, {((intern(('prime', pr)), r * k * s),): Fraction(1)})
        return self.fold(out)

    def pow(self, p, r, src=None):
        r = Fraction(r)
        if r == 0:
            return const(1)
        if r == 1:
            return p
        if not p:
            if r > 0:
                return {}
            return patom(('fn', 'divzero', ()))
        if len(p) == 1:
            (m, c), = p.items()
            return self.powmono(m, c, r, src)
        if r.denominator == 1 and r > 0 and r <= 6:
            return self.powint(p, int(r))
        g, c, q = self.content(p)
        if r.denominator != 1 and (g or c != 1):
            # sign bookkeeping: need c*g >= 0 ; decide from the sample when closed
            s = self.sgn_cell(g, c)
            if s is None:
                # keep everything inside
                g2 = tuple((a, e) for a, e in g if self.nonneg(a) or (e.denominator == 1 and e % 2 == 0))
                gi = tuple((a, -e) for a, e in g2)
                ac = abs(c)
                q = {mmul(m, gi): v / ac for m, v in p.items()}
                k = intern(('poly', pkey(q)))
                return self.mulp(self.powmono(g2, ac, r), {((k, r),): Fraction(1)})
            if s < 0:
                c = -c
                q = {m: -v for m, v in q.items()}
                # now c*g has sign: s flips
            r1 = self.powmono(g, c, r, None, assume_pos=True)
        else:
            r1 = self.powmono(g, c, r)
        k = intern(('poly', pkey(q)))
        return self.mulp(r1, self.fold({((k, r),): Fraction(1)}))

    def sgn_atom(self, a):
        """sign of an atom in this cell: 1, -1, 0 or None"""
        if self.nonneg(a):
            return 1
        at = ATOMS[a]
        if at[0] == 'e' and self.closed(at[1]):
            return self.sign_of(at[1]) or 1
        return None

    def sgn_cell(self, m, c):
        s = 1 if c > 0 else -1
        for a, e in m:
            if e.denominator == 1 and e % 2 == 0:
                continue
            t = self.sgn_atom(a)
            if t is None:
                return None
            s *= t
        return s

    def powmono(self, m, c, r, src=None, assume_pos=False):
        if r.denominator == 1:
            return self.fold({tuple(sorted((a, e * r) for a, e in m)): c ** int(r)}) if c != 0 else {}
        # fractional power
        sgn = 1 if c > 0 else -1
        out = self.numpow(abs(c), r)
        bad = []
        for a, e in m:
            if self.nonneg(a):
                out = self.mulp(out, self.fold({((a, e * r),): Fraction(1)}))
                continue
            even = e.denominator == 1 and e % 2 == 0
            t = self.sgn_atom(a)
            if t is not None:
                # |a| = t*a
                if not even:
                    sgn *= t
                er = e * r
                if er.denominator == 1:
                    out = self.mulp(out, {((a, er),): Fraction(t) ** int(er)})
                else:
                    k = intern(('abs', pkey({((a, Fraction(1)),): Fraction(1)}))) if t < 0 else intern(('abs', pkey({((a, Fraction(1)),): Fraction(1)})))
                    out = self.mulp(out, self.fold({((k, er),): Fraction(1)}))
                continue
            if even:
                k = intern(('abs', pkey({((a, Fraction(1)),): Fraction(1)})))
                out = self.mulp(out, self.fold({((k, e * r),): Fraction(1)}))
                continue
            bad.append((a, e))
        if not bad and (sgn > 0 or assume_pos):
            return out
        if not bad:
            return self.mulp(out, patom(('fn', 'negpow', pkey(const(r)))))
        k = intern(('poly', pkey({tuple(bad): Fraction(1 if c > 0 else -1)})))
        return self.mulp(out, {((k, r),): Fraction(1)})

    # -------------------------------------------------------------- expressions
    def nf(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self._nf(e)
            self.memo[e] = r
        return r

    def _nf(self, e):
        op, a = e.op, e.args
        if op == 'num':
            return const(a[0])
        if op == 'add':
            r = {}
            for x in a:
                r = padd(r, self.nf(x))
            return r
        if op == 'mul':
            r = const(1)
            for x in a:
                r = self.mulp(r, self.nf(x))
            return r
        if op == 'div':
            n = self.nf(a[0])
            if not n:
                return {}
            return self.mulp(n, self.pow(self.nf(a[1]), -1))
        if op == 'int':
            return self.nf(a[0])
        if op == 'sqrt':
            return self.pow(self.nf(a[0]), Fraction(1, 2))
        if op == 'powf':
            k = self.nf(a[1])
            if set(k) <= {()}:
                return self.pow(self.nf(a[0]), k.get((), Fraction(0)))
            return patom(('fn', 'powf', pkey(self.nf(a[0])), pkey(k)))
        if op in ('sel', 'max', 'min', 'imax', 'imin'):
            if op == 'sel':
                c, x, y = a
            else:
                x, y = a
                c = flt(y, x) if op in ('max', 'imax') else flt(x, y)
            px = py = None
            if self.closed(c):
                return self.nf(x) if self.ask(c) else self.nf(y)
            c = self.simp_cond(c)
            if c is TRUE or c is FALSE:
                return self.nf(x if c is TRUE else y)
            px, py = self.nf(x), self.nf(y)
            if px == py:
                return px
            return patom(('g', self.clean(sel(c, x, y))))
        if op == 'abs':
            if self.closed(a[0]):
                s = self.sign_of(a[0])
                p = self.nf(a[0])
                return p if s > 0 else ({m: -c for m, c in p.items()} if s < 0 else {})
            return self.absp(self.nf(a[0]))
        if op == 'sign':
            if self.closed(a[0]):
                s = self.sign_of(a[0])
                if s == 0:
                    raise Uncertain()
                return const(s)
            p = self.nf(a[0])
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1:
                    r = patom(('sign', pkey({m: Fraction(1)})))
                    return r if c > 0 else {k: -v for k, v in r.items()}
            return patom(('sign', pkey(p)))
        if op in ('exp', 'ln', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'tanh', 'sinh', 'cosh'):
            return self.func(op, self.nf(a[0]))
        if op == 'sum':
            return self.sum(a[0], self.nf(a[1]), self.nf(a[2]), a[1])
        if op in ('maxr', 'minr', 'prod', 'first', 'last', 'any', 'scat'):
            return self.reduction(op, a)
        if op == 'elem':
            b = a[0]
            if b.op == 'sym':
                idx = tuple(self.cleanidx(i) for i in a[1:])
                return patom(('e', mk('elem', b, *idx)))
            return patom(('app', 'elem', (self.argkey(b),) + tuple(self.argkey(i) for i in a[1:])))
        if op in ('app', 'fld', 'payload', 'proj', 'shape') and not (op == 'shape' and a[0].op == 'sym'):
            return patom(('app', op, tuple(self.argkey(x) for x in a)))
        if op == 'idiv' or op == 'mod':
            return patom(('app', op, tuple(self.argkey(x) for x in a)))
        if op in ('inf', 'ninf', 'nan'):
            return patom(('e', e))
        if op in ('not', 'and', 'or', 'eq', 'lt', 'feq', 'flt', 'fle', 'bool', 'any', 'isvar'):
            if op == 'bool':
                return const(1 if a[0] else 0)
            if self.closed(e):
                return const(1 if self.ask(e) else 0)
            return patom(('g', self.clean(e)))
        return patom(('e', e))

    def simp_cond(self, c):
        return c

    def clean(self, e):
        """leaf expression: resolve closed guards inside so that equal leaves are identical"""
        return e

    def cleanidx(self, e):
        if e.op in ('sym', 'bv', 'num'):
            return e
        if e.op == 'int':
            return self.cleanidx(e.args[0])
        if e.op in ('sel', 'imax', 'imin') and self.closed(e):
            if e.op == 'sel':
                return self.cleanidx(e.args[1] if self.ask(e.args[0]) else e.args[2])
        if e.op == 'elem':
            return mk('elem', e.args[0], *[self.cleanidx(i) for i in e.args[1:]])
        if e.op in ('add', 'mul', 'idiv', 'mod'):
            args = [self.cleanidx(i) for i in e.args]
            return expand(REBUILD[e.op](*args))
        return e

    def absp(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            out = const(abs(c))
            for a, e in m:
                if (e.denominator == 1 and e % 2 == 0) or self.nonneg(a):
                    f = {((a, e),): Fraction(1)}
                else:
                    t = self.sgn_atom(a)
                    if t is not None and e.denominator == 1:
                        f = {((a, e),): Fraction(t) ** int(e)}
                    elif ATOMS[a][0] == 'sign':
                        f = const(1)
                    else:
                        k = intern(('abs', pkey({((a, Fraction(1)),): Fraction(1)})))
                        f = self.fold({((k, e),): Fraction(1)})
                out = self.mulp(out, f)
            return out
        if self.poly_nonneg(p):
            return p
        if self.poly_nonneg({m: -c for m, c in p.items()}):
            return {m: -c for m, c in p.items()}
        lead = min(p)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        return self.mulp(const(abs(c)), patom(('abs', pkey(q))))

    def func(self, op, p):
        if op == 'exp':
            out = const(1)
            for m, c in p.items():
                inner = None
                if len(m) == 1 and ATOMS[m[0][0]][:2] == ('fn', 'ln') and m[0][1] == 1:
                    out = self.mulp(out, self.pow(unkey(ATOMS[m[0][0]][2]), c))
                    continue
                k = intern(('fn', 'exp', pkey({m: Fraction(1)})))
                out = self.mulp(out, {((k, c),): Fraction(1)})
            return out
        if op == 'ln':
            if not p:
                return patom(('fn', 'ln', ()))
            g, c, q = self.content(p)
            out = {}
            okc = c > 0 and all(self.nonneg(a) for a, _ in g)
            if okc:
                for a, e in g:
                    at = ATOMS[a]
                    if at[:2] == ('fn', 'exp'):
                        out = padd(out, {m: v * e for m, v in unkey(at[2]).items()})
                    else:
                        out = padd(out, {((intern(('fn', 'ln', pkey({((a, Fraction(1)),): Fraction(1)}))), Fraction(1)),): e})
                if c != 1:
                    f1, f2 = factorint(c.numerator), factorint(c.denominator)
                    if f1 is None or f2 is None:
                        out = padd(out, patom(('fn', 'ln', pkey(const(c)))))
                    else:
                        for f, s in ((f1, 1), (f2, -1)):
                            for pr, k in f.items():
                                out = padd(out, {((intern(('fn', 'ln', pkey(const(pr)))), Fraction(1)),): Fraction(k * s)})
                if q != const(1):
                    out = padd(out, patom(('fn', 'ln', pkey(q))))
                return out
            return patom(('fn', 'ln', pkey(p)))
        if op in ('cos', 'cosh') and p:
            if p[min(p)] < 0:
                p = {m: -v for m, v in p.items()}
        if op in ('sin', 'tan', 'tanh', 'sinh', 'asin', 'atan') and p and p[min(p)] < 0:
            r = patom(('fn', op, pkey({m: -v for m, v in p.items()})))
            return {m: -v for m, v in r.items()}
        if op == 'cos' and not p:
            return const(1)
        return patom(('fn', op, pkey(p)))

    # -------------------------------------------------------------- binders
    def mentions(self, i, b):
        at = ATOMS[i]
        return b in atom_free(i)

    def sum(self, bv, n, body, ne=None):
        """sum over bv of a polynomial"""
        out = {}
        for m, c in body.items():
            ins, outs = [], []
            for a, e in m:
                (ins if bv in atom_free(a) else outs).append((a, e))
            coef = {tuple(outs): c}
            if not ins:
                t = n
            else:
                t = self.sumatom([(bv, pkey(n))], tuple(ins))
            out = padd(out, self.mulp(coef, t))
        return out

    def sumatom(self, dims, mono):
        dims = list(dims)
        # flatten one nested sum factor
        sums = [(a, e) for a, e in mono if ATOMS[a][0] == 'sum']
        if len(sums) == 1 and sums[0][1] == 1:
            a = sums[0][0]
            _, idims, imono = ATOMS[a]
            # rename inner variables to fresh ones
            mp = {}
            nd = []
            for b, nk in idims:
                f = mk('bv', next(_uid_tmp), 't')
                mp[b] = f
            nd = [(mp[b], ren_key(nk, mp)) for b, nk in idims]
            imono = ren_mono(imono, mp)
            rest = tuple(x for x in mono if x[0] != a)
            # ranges must not depend on the outer variables for reordering; keep order outer..inner otherwise
            mono = mmul(rest, imono)
            dims = dims + nd
        h = 0
        inner = 0
        for a, e in mono:
            inner = max(inner, ATOM_H[a])
        indep = all(not (key_free(nk) & {b for b, _ in dims}) for _, nk in dims)
        best = None
        perms = itertools.permutations(range(len(dims))) if indep and len(dims) <= 4 else [tuple(range(len(dims)))]
        for perm in perms:
            mp = {dims[j][0]: cb(inner + pos) for pos, j in enumerate(perm)}
            m2 = ren_mono(mono, mp)
            d2 = tuple((cb(inner + pos), ren_key(dims[j][1], mp)) for pos, j in enumerate(perm))
            k = (m2, tuple(n for _, n in d2))
            if best is None or k < best[0]:
                best = (k, ('sum', d2, m2))
        return patom(best[1])

    def reduction(self, op, a):
        bv, n = a[0], a[1]
        if op == 'scat':
            e = canon(mk(op, *a))
            if not self.closed(e):
                return patom(('g', e))
            q, n, c, v, init = e.args
            if self.ask(any_(q, n, c)):
                return self.nf(subst(v, {q: mk('last', q, n, c)}))
            return self.nf(init)
        if op == 'first' or op == 'last':
            e = canon(mk(op, *a))
            return patom(('e', e)) if self.closed(e) else patom(('g', e))
        if op == 'any':
            e = mk(op, *a)
            if self.closed(e):
                return const(1 if self.ask(e) else 0)
            return patom(('g', e))
        body, init = a[2], a[3]
        pb, pi, pn = self.nf(body), self.nf(init), self.nf(n)
        if op in ('maxr', 'minr') and all(m == () for m in pb) and self.closed(n):
            if not self.ask(ilt(ZERO, n)):
                return pi
            if init is (NINF if op == 'maxr' else INF):
                return pb
            if all(m == () for m in pi):
                return const((max if op == 'maxr' else min)(pb.get((), 0), pi.get((), 0)))
        scale = None
        if op in ('maxr', 'minr') and pb and (not pi or init is (NINF if op == 'maxr' else INF)):
            # max_b s*x_b = s*max_b x_b for a positive s that does not depend on b
            common = set(min(pb, key=len))
            for m in pb:
                common &= set(m)
            out = []
            for a, e in common:
                if bv not in atom_free(a) and not atom_free(a) and ATOMS[a][0] == 'e' and isinstance(ATOMS[a][1], E):
                    try:
                        if self.sign_of(ATOMS[a][1]) > 0:
                            out.append((a, e))
                    except (Uneval, Uncertain):
                        pass
            k = abs(pb[min(pb)])
            if out or k != 1:
                scale = {tuple(sorted(out)): k}
                pb = {tuple(x for x in m if x not in out): c / k for m, c in pb.items()}
        h = max(key_height(pkey(pb)), key_height(pkey(pn)))
        c = cb(h)
        pb2 = ren_poly(pb, {bv: c})
        r = patom(('red', op, c, pkey(pn), pkey(pb2), pkey(pi)))
        return self.mulp(scale, r) if scale else r

    def argkey(self, x):
        if not isinstance(x, E):
            if isinstance(x, tuple):
                return tuple(self.argkey(y) for y in x)
            return ('S', str(x))
        if x.op == 'sym' and x.args[1] in ('A', 'O'):
            return ('X', x)
        if x.op == 'lam':
            bvs, shp, body = x.args
            kb = self.argkey(body)
            ks = tuple(pkey(self.nf(s)) for s in shp)
            h = argkey_height(kb)
            mp = {b: cb(h + i) for i, b in enumerate(bvs)}
            return ('L', tuple(mp[b] for b in bvs), ks, ren_arg(kb, mp))
        if x.op in ('str', 'lit', 'mutref'):
            return ('X', x)
        if x.op in ('tup', 'adt'):
            return ('T',) + tuple(self.argkey(y) for y in x.args)
        return ('P', pkey(self.nf(x)))

    # -------------------------------------------------------------- zero test
    def is_zero(self, p, depth=0):
        if not p:
            return True
        if depth > 6:
            return False
        # clear denominators: poly atoms with negative exponents
        mins = {}
        for m in p:
            for a, e in m:
                if ATOMS[a][0] == 'poly':
                    mins[a] = min(mins.get(a, Fraction(0)), e)
        for m in p:
            d = dict(m)
            for a in mins:
                if a not in d:
                    mins[a] = min(mins[a], Fraction(0))
        neg = {a: e for a, e in mins.items() if e < 0}
        if neg:
            mul_ = tuple(sorted((a, -e) for a, e in neg.items()))
            q = {}
            for m, c in p.items():
                q = padd(q, self.fold({mmul(m, mul_): c}))
            return self.is_zero(q, depth + 1)
        # group by fractional-power class, expand whole powers (fold already did)
        q = self.fold(p)
        if not q:
            return True
        if self.exp_numeric(q):
            return True
        return False

    def exp_numeric(self, q):
        return False


import itertools as _it
_uid_tmp = (('tmp', i) for i in _it.count())

_AF = {}


def atom_free(i):
    """free bound variables (E bv nodes) of an atom"""
    r = _AF.get(i)
    if r is not None:
        return r
    a = ATOMS[i]
    k = a[0]
    if k in ('e', 'g'):
        r = frozenset(b for b in free(a[1]) if b.op == 'bv')
    elif k == 'fn':
        r = frozenset().union(*[key_free(x) for x in a[2:] if isinstance(x, tuple)]) if len(a) > 2 else frozenset()
    elif k in ('poly', 'abs', 'sign'):
        r = key_free(a[1])
    elif k == 'sum':
        r = mono_free(a[2])
        for b, n in a[1]:
            r = r | key_free(n)
        r = r - {b for b, _ in a[1]}
    elif k == 'red':
        r = (key_free(a[4]) - {a[2]}) | key_free(a[3]) | key_free(a[5])
    elif k == 'app':
        r = frozenset().union(*[arg_free(x) for x in a[2]]) if a[2] else frozenset()
    else:
        r = frozenset()
    _AF[i] = r
    return r


def mono_free(m):
    r = frozenset()
    for a, _ in m:
        r = r | atom_free(a)
    return r


def key_free(k):
    r = frozenset()
    for m, _ in k:
        r = r | mono_free(m)
    return r


def arg_free(x):
    if isinstance(x, tuple) and x:
        if x[0] == 'P':
            return key_free(x[1])
        if x[0] == 'L':
            r = arg_free(x[3]) - set(x[1])
            for s in x[2]:
                r = r | key_free(s)
            return r
        if x[0] == 'X':
            return frozenset(b for b in free(x[1]) if b.op == 'bv')
        r = frozenset()
        for y in x:
            r = r | arg_free(y)
        return r
    return frozenset()


def ren_mono(m, mp):
    if not (mono_free(m) & set(mp)):
        return m
    return tuple(sorted((ren_atom(a, mp), e) for a, e in m))


def ren_poly(p, mp):
    return {ren_mono(m, mp): c for m, c in p.items()}


def ren_key(k, mp):
    if not (key_free(k) & set(mp)):
        return k
    return pkey(ren_poly(unkey(k), mp))


def ren_arg(x, mp):
    if not isinstance(x, tuple) or not x or not (arg_free(x) & set(mp)):
        return x
    if x[0] == 'P':
        return ('P', ren_key(x[1], mp))
    if x[0] == 'L':
        m2 = {k: v for k, v in mp.items() if k not in x[1]}
        return ('L', x[1], tuple(ren_key(s, m2) for s in x[2]), ren_arg(x[3], m2))
    if x[0] == 'X':
        return ('X', subst(x[1], mp))
    return tuple(ren_arg(y, mp) for y in x)


def ren_atom(i, mp):
    if not (atom_free(i) & set(mp)):
        return i
    a = ATOMS[i]
    k = a[0]
    if k in ('e', 'g'):
        return intern((k, rawsubst(a[1], mp)))
    if k == 'fn':
        return intern(('fn', a[1]) + tuple(ren_key(x, mp) if isinstance(x, tuple) else x for x in a[2:]))
    if k in ('poly', 'abs', 'sign'):
        return intern((k, ren_key(a[1], mp)))
    if k == 'sum':
        m2 = {x: y for x, y in mp.items() if x not in {b for b, _ in a[1]}}
        return intern(('sum', tuple((b, ren_key(n, m2)) for b, n in a[1]), ren_mono(a[2], m2)))
    if k == 'red':
        m2 = {x: y for x, y in mp.items() if x is not a[2]}
        return intern(('red', a[1], a[2], ren_key(a[3], m2), ren_key(a[4], m2), ren_key(a[5], m2)))
    if k == 'app':
        return intern(('app', a[1], tuple(ren_arg(x, mp) for x in a[2])))
    return i


_RS = {}


def rawsubst(e, mp):
    return subst(e, mp)


def factorint(n):
    f = {}
    n = abs(n)
    if n > 10**9:
        return None
    d = 2
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


# ------------------------------------------------------------------ printing
def show_poly(p, lim=400):
    if not isinstance(p, dict):
        p = unkey(p)
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        fs = []
        for a, e in m:
            s = show_atom(a)
            fs.append(s if e == 1 else '%s^%s' % (s, e if e.denominator == 1 and e > 0 else '(%s)' % e))
        t = '*'.join(fs)
        if not t:
            out.append(str(c))
        elif c == 1:
            out.append(t)
        elif c == -1:
            out.append('-' + t)
        else:
            out.append('%s*%s' % (c, t))
    s = ' + '.join(out).replace('+ -', '- ')
    return s if len(s) <= lim else s[:lim] + '…'


def show_atom(i):
    a = ATOMS[i]
    k = a[0]
    if k in ('e', 'g'):
        return show(a[1])
    if k == 'fn':
        return '%s(%s)' % (a[1], ', '.join(show_poly(x) if isinstance(x, tuple) else str(x) for x in a[2:]))
    if k == 'poly':
        return '(%s)' % show_poly(a[1])
    if k == 'abs':
        return '|%s|' % show_poly(a[1])
    if k == 'sign':
        return 'sign(%s)' % show_poly(a[1])
    if k == 'prime':
        return str(a[1])
    if k == 'sum':
        return 'Σ{%s}(%s)' % (','.join('%s<%s' % (show(b), show_poly(n)) for b, n in a[1]), show_poly({a[2]: Fraction(1)}))
    if k == 'red':
        return '%s{%s<%s}(%s; %s)' % (a[1], show(a[2]), show_poly(a[3]), show_poly(a[4]), show_poly(a[5]))
    if k == 'app':
        return '%s(%s)' % (a[1], ', '.join(show_arg(x) for x in a[2]))
    return str(a)


def show_arg(x):
    if isinstance(x, tuple) and x:
        if x[0] == 'P':
            return show_poly(x[1])
        if x[0] == 'L':
            return '[|%s<%s| %s]' % (','.join(map(show, x[1])), ','.join(show_poly(s) for s in x[2]), show_arg(x[3]))
        if x[0] == 'X':
            return show(x[1])
        if x[0] == 'S':
            return str(x[1])
        return '(%s)' % ', '.join(show_arg(y) for y in x if y != 'T')
    return str(x)
