"""Deciding equalities of value graphs: cells of the guard arrangement, normal forms per cell, certified differences."""
import itertools
import random
from fractions import Fraction
from expr import *
from values import *
from sigma import *
from norm import *


class Res:
    """outcome of one obligation"""

    def __init__(self, status, cells=0, detail='', witness=None):
        self.status = status          # 'held' | 'violated' | 'undecided'
        self.cells = cells
        self.detail = detail
        self.witness = witness

    def __repr__(self):
        return 'Res(%s, cells=%d, %s)' % (self.status, self.cells, self.detail)


SCALES = [Fraction(1, 64), Fraction(1, 8), Fraction(1, 3), Fraction(1), Fraction(1), Fraction(3), Fraction(10), Fraction(50)]


def rnd(rng, kind, pool=None):
    if pool and kind in ('pos', 'real', 'nonneg') and rng.random() < .3:
        v = abs(rng.choice(pool))
        if v != 0:
            return -v if kind == 'real' and rng.random() < .5 else v
    if isinstance(kind, (list, tuple)):
        return rng.choice(list(kind))
    if callable(kind):
        return kind(rng)
    v = Fraction(rng.randint(1, 97), rng.randint(1, 23)) * rng.choice(SCALES)
    if kind == 'pos':
        return v
    if kind == 'real':
        return v if rng.random() < .5 else -v
    if kind == 'nonneg':
        return v
    if kind == 'unit':
        return Fraction(rng.randint(1, 96), 97)
    if kind == 'ge1':
        return 1 + v
    raise ValueError(kind)


class Among(list):
    """values to draw from, and a predicate for the others that are admissible"""

    def __init__(self, vs, ok=lambda v: True):
        super().__init__(vs)
        self.ok = ok


class Space:
    """the admissible inputs: scalar ranges, constraints, array contents; `strata` are substitutions that put equalities in"""

    def __init__(self, scal=None, cons=(), strata=None, arrs=None, n=160, dims=None, nmin=1, nmax=3):
        self.scal = scal or {}
        self.cons = list(cons)
        self.strata = strata or [('generic', None)]
        self.arrs = arrs
        self.n = n
        self.dims = dims or {}
        self.nmin, self.nmax = nmin, nmax

    def with_(self, **k):
        s = Space(self.scal, self.cons, self.strata, self.arrs, self.n, self.dims, self.nmin, self.nmax)
        for a, b in k.items():
            setattr(s, a, b)
        return s

    def samples(self, transform=None, extra_cons=(), n=None, pool=None):
        """admissible points; with a pool, magnitudes are drawn from it as well"""
        rng = random.Random(20240 if pool is None else 777)
        made = 0
        tries = 0
        n = n or self.n
        while made < n and tries < 60 * n:
            tries += 1
            sc = {k: rnd(rng, v, pool) for k, v in self.scal.items()}
            dm = {k: rnd(rng, v) for k, v in self.dims.items()}
            sc.update(dm)
            s = Sigma(sc, None, seed=rng.randint(0, 1 << 30), nmin=self.nmin, nmax=self.nmax)
            if pool is not None:
                m = rng.choice((0, 1, 1, 2))
                s.pool = pool if m == 0 else ELEMS + pool if m == 1 else [Fraction(0)] * 8 + ELEMS
            if self.arrs:
                s.arrs = self.arrs(s, rng)
            try:
                ok = True
                for c in list(self.cons) + list(extra_cons):
                    if transform is not None:
                        c = transform(c)
                    if not s.ev(c):
                        ok = False
                        break
                if not ok:
                    continue
            except (Uneval, Uncertain):
                continue
            made += 1
            yield s


def show_sigma(s, es, lim=12):
    out = []
    seen = set()
    for e in es:
        for x in walk(e):
            if x.op == 'sym' and x.args[1] not in ('A', 'O') and x in s.scal and x not in seen:
                seen.add(x)
                out.append('%s=%s' % (x.args[0], s.scal[x]))
    return ', '.join(out[:lim])


def close_to(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return x is y
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    if isinstance(x, (Fraction, int)) and isinstance(y, (Fraction, int)):
        return x == y
    x, y = float(x), float(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= 1e-7 * max(1e-3, abs(x), abs(y))


import math


def magnitudes(*es):
    """values around the constants that occur in the expressions, and zero"""
    cs = set()
    for e in es:
        for x in walk(e):
            if x.op == 'num':
                cs.add(abs(Fraction(x.args[0])))
    cs = sorted(c for c in cs if c not in (0, 1))[:12]
    out = [Fraction(0), Fraction(0)]
    for c in cs:
        out += [c, -c, c * Fraction(9, 7), -c * Fraction(9, 7), c * Fraction(5, 7), c + Fraction(1, 3), -c - Fraction(1, 3)]
    for k in (Fraction(40), Fraction(1, 40)):
        out += [x * k for x in ELEMS[:5]]
    return out


def generic_index(ranges, hint='j'):
    return [fresh(hint, 'N') for _ in ranges]


def equal(a, b, space, idx=(), note='', max_undecided=3):
    r = equal0(a, b, space, idx)
    if r.status == 'violated':
        u = unsolved(a, b)
        if u:
            return Res('undecided', r.cells, 'depends on %s, which the analysis has no closed form for: %s' % (', '.join(sorted(x.args[0] for x in u))[:120], r.detail))
    return r


def equal0(a, b, space, idx=()):
    """a == b as real functions on the space; idx: list of (N symbol, bound) of generic indices"""
    if a is b or canon(a) is canon(b):
        return Res('held', 1, 'identical')
    total = 0
    und = []
    for sname, tr in space.strata:
        ta, tb = (tr(a), tr(b)) if tr else (a, b)
        if ta is tb or canon(ta) is canon(tb):
            total += 1
            continue
        cells = []
        met = set()
        some = False
        pool = magnitudes(ta, tb)
        base = []

        def points():
            for s0 in itertools.chain(space.samples(tr), space.samples(tr, n=max(40, space.n // 2), pool=pool)):
                for s in index_sigmas(s0, idx):
                    if s is not None:
                        if len(base) < 80:
                            base.append(s)
                        yield s
            yield from on_boundaries(ta, tb, space, tr, base)
            yield from on_joint_boundaries(ta, tb, space, tr, base)
            yield from within(farther(), EFFORT)

        def farther():
            far = {}
            for s in on_int_boundaries((ta, tb), space, tr, base, 3, idx):
                far.setdefault(getattr(s, 'at_size', None), []).append(s)
                yield s
            # (and what the values can do at those sizes)
            for ss in list(far.values())[:12]:
                yield from on_boundaries(ta, tb, space, tr, ss[:6])
            yield from on_lines(ta, tb, space, tr, base)
        for s in points():
            if True:
                some = True
                new = s.guards(ta, tb) - met
                try:
                    if not new and any(match(c, s) for c in cells):
                        continue
                    ok, cons = same_nf(ta, tb, s)
                except (Uncertain, Uneval, TooBig) as ex:
                    ok, cons = None, None
                    why = repr(ex)
                if ok:
                    cells.append(cons)
                    met |= new
                    total += 1
                    continue
                # certify
                try:
                    va, vb = s.ev(ta), s.ev(tb)
                except (Uncertain, Uneval) as ex:
                    if 'division by zero' in str(ex):
                        q = by_zero(ta, tb, s)
                        if q:
                            return Res('violated', total, 'in stratum %s at %s: %s' % (sname, show_sigma(s, [ta, tb]), q), s)
                    elif ok is None or getattr(s, 'directed', False):
                        continue
                    und.append('%s: %s' % (sname, ex))
                    continue
                if not close_to(va, vb):
                    return Res('violated', total, 'in stratum %s at %s: %s instead of %s%s' % (
                        sname, show_sigma(s, [ta, tb]), fmt(va), fmt(vb), nf_detail(ta, tb, s)), s)
                if ok is False and not getattr(s, 'directed', False):
                    und.append('%s: normal forms differ, no numeric difference%s' % (sname, nf_detail(ta, tb, s)))
        if not some:
            und.append('%s: no sample satisfies the constraints' % sname)
        if not und and [x for e in (ta, tb) for x in walk(e) if x.op == 'top']:
            # (a value the interpretation gave up on: the points that were understood do not settle it)
            und.append('%s: reads a value that is not understood' % sname)
    if und:
        return Res('undecided', total, und[0])
    return Res('held', total)


EFFORT = 400000
LIMIT = [None]


class Enough(Exception):
    pass



def within(points, effort):
    """as many points as a number of evaluation steps allows (a count, so that a run is repeatable)"""
    spent = 0
    points = iter(points)
    while spent < effort:
        start = WORK[0]
        LIMIT[0] = start + effort - spent
        try:
            s = next(points)
        except (StopIteration, Enough):
            return
        finally:
            LIMIT[0] = None
        spent += WORK[0] - start
        yield s


def unknown_part(x):
    """the result of a loop without closed form, of a trait method no contract is known for, or a collected filter"""
    if x.op == 'app' and x.args[0] in ('filtered', 'count'):
        return True
    return x.op == 'sym' and SYM_INFO.get(x, {}).get('unsolved') or x.op == 'app' and isinstance(x.args[0], str) and '::' in x.args[0]


def unsolved(*es):
    """parts that stand for one value, not for any"""
    return {x for e in es for x in walk(e) if unknown_part(x)}


def int_consts(*es):
    """guards between integers that compare with a constant outside the range sizes are sampled from: [(constant, symbols)]"""
    out = {}
    for e in es:
        for x in walk(e):
            if x.op in ('lt', 'eq', 'imax', 'imin') and x not in out:
                cs = [int(y.args[0]) for y in walk(x) if y.op == 'num' and y.args[0] == int(y.args[0]) and 3 < abs(y.args[0]) < 10 ** 6]
                if cs:
                    out[x] = (cs, sorted((y for y in free(x) | set(walk(x)) if y.op == 'sym' and y.args[1] in ('N', 'Z')), key=lambda y: y.id))
    seen = []
    for cs, sy in out.values():
        for c in cs:
            if sy and len(sy) <= 6 and (abs(c), sy) not in seen:
                seen.append((abs(c), sy))
    return seen[:8]


def on_int_boundaries(es, space, tr, base, per=3, idx=()):
    """points around those constants: one size, or all sizes of the guard together"""
    rng = random.Random(4242)
    ixs = {v for v, _ in idx}
    # sizes that are compared with each other
    pairs = set()
    for e in es:
        for x in walk(e):
            if x.op in ('eq', 'lt'):
                g = frozenset(y for y in walk(x) if y.op == 'sym' and y.args[1] in ('N', 'Z'))
                if 2 <= len(g) <= 3 and not any(y.op == 'bv' for y in free(x)):
                    pairs.add(g)
    pairs = sorted(pairs, key=lambda g: sorted(y.id for y in g))[:6]
    for c, sy in int_consts(*es):
        sy = [y for y in sy if y not in ixs]
        for grp in [[y] for y in sy] + ([sy] if len(sy) > 1 else []) + [sorted({y, *g} - ixs, key=lambda y: y.id) for y in sy for g in pairs if y in g]:
            for v in (c, c + 1, c - 1) + ((4 * c,) if c <= 128 else ()):
                for s in base[:per] if v < 2 * c else base[:1]:
                    z = s.sub({y: v for y in grp})
                    if v > 2 * c:
                        # (counts that are compared with the constant and with the size)
                        z.pool = [Fraction(0)] * (2 * len(ELEMS)) + ELEMS
                    if space.arrs:
                        z.arrs = space.arrs(z, rng)
                    for z in index_sigmas(z, idx):
                        try:
                            if all(z.ev(tr(k) if tr else k) for k in space.cons):
                                z.directed = True
                                z.at_size = (c, v)
                                yield z
                        except (Uneval, Uncertain, ZeroDivisionError, OverflowError):
                            continue


def is_integer(e):
    if e.op in ('sym', 'bv'):
        return e.args[1] in ('N', 'Z', 'B', 'i', 'A', 'O')
    return e.op in ('int', 'idiv', 'mod', 'shape', 'bool', 'imax', 'imin', 'not', 'and', 'or', 'lt', 'flt', 'fle', 'eq', 'feq', 'any', 'all') or \
        (e.op in ('add', 'mul') and all(is_integer(y) or y.op == 'num' for y in e.args) and any(is_integer(y) for y in e.args)) or \
        (e.op == 'elem' and e.args[0].op == 'sym' and SYM_INFO.get(e.args[0], {}).get('esort') in ('N', 'Z'))


def real_guards(*es):
    """the comparisons between reals: guard -> (left, right, equality?)"""
    out = {}
    for e in es:
        for x in walk(e):
            if x in out:
                continue
            if x.op == 'feq' or x.op == 'eq' and not any(is_integer(y) for y in x.args):
                out[x] = (x.args[0], x.args[1], True)
            elif x.op in ('flt', 'fle', 'max', 'min') and len(x.args) == 2 and not any(y.op in ('num', 'inf') and y.args and str(y.args[0]) in ('inf', '-inf') for y in x.args):
                out[x] = (x.args[0], x.args[1], False)
    eqs = [(g, *v) for g, v in out.items() if v[2]]
    rest = [(g, *v) for g, v in out.items() if not v[2]]
    return eqs[:16] + rest[:12]


def on_boundaries(ta, tb, space, tr, base):
    """points at which an equality guard holds, and points on and on either side of the boundary of an order guard: one free value
    is solved for"""
    guards = real_guards(ta, tb)
    closed = [h for h in guards if not any(b_.op == 'bv' for b_ in free(h[0]))]
    # (which entry is looked at decides as much as the values do)
    ints = {x for e in (ta, tb) for x in walk(e) if x.op == 'eq' and all(is_integer(y) or y.op == 'num' for y in x.args) and any(y.op == 'elem' for y in x.args) and not any(b_.op == 'bv' for b_ in free(x))}
    closed = [(x, *x.args, True) for x in sorted(ints, key=lambda x: x.id)[:3]] + closed

    def signature(g, s):
        out = []
        for h in closed:
            if h[0] is not g:
                try:
                    out.append(bool(s.ev(h[0])))
                except (Uneval, Uncertain, ZeroDivisionError, OverflowError):
                    out.append(None)
        return tuple(out)
    for g, a, b, eq in guards:
        hits = 0
        met = {}            # an order guard: points for every combination of the other guards
        fb = sorted((b_ for b_ in free(g) if b_.op == 'bv'), key=lambda b_: b_.id)
        if len(fb) > 2:
            continue
        for s in base[:30] if eq or not closed[1:] else base[:60]:
            if hits >= (8 if eq else 4):
                if eq:
                    break
                sg = signature(g, s)
                if met.get(sg, 0) >= 1 or len(met) > 8:
                    continue
                met[sg] = met.get(sg, 0) + 1
            elif not eq:
                sg = signature(g, s)
                met[sg] = met.get(sg, 0) + 1
            envs = [{}]
            for b_ in fb:
                envs = [{**e, b_: i} for e in envs for i in (0, 1)]
            for env in envs:
                qs = list(at_boundary(g, a, b, eq, s, env, space, tr))
                if qs:
                    hits += 1
                    yield from qs
                    break


def on_joint_boundaries(ta, tb, space, tr, base):
    """points at which two equality guards hold at once"""
    eqs = [g for g in real_guards(ta, tb) if g[3]][:6]
    if len(eqs) < 2:
        return
    ns = [y for y in free(ta) | free(tb) if y.op == 'sym' and y.args[1] == 'N' and SYM_INFO.get(y, {}).get('min')]

    def sizes(s):
        try:
            return -sum(min(int(s.ev(y)), 4) for y in ns)
        except (Uneval, Uncertain):
            return 0
    base = sorted(base, key=sizes)

    def envs(g):
        fb = sorted((b_ for b_ in free(g) if b_.op == 'bv'), key=lambda b_: b_.id)
        return [{}] if not fb else [{b_: 0 for b_ in fb}, {b_: 1 for b_ in fb}] if len(fb) <= 2 else []
    for g1, g2 in itertools.combinations(eqs, 2):
        hits = 0
        for s in base[:16]:
            if hits >= 8:
                break
            for e1 in envs(g1[0]):
                z = next(at_boundary(*g1, s, e1, space, tr), None)
                if z is None:
                    continue
                for e2 in envs(g2[0]):
                    for q in at_boundary(*g2, z, e2, space, tr):
                        try:
                            if q.ev(g1[0], e1):
                                hits += 1
                                yield q
                        except (Uneval, Uncertain, ZeroDivisionError, OverflowError):
                            pass


def on_lines(ta, tb, space, tr, base):
    """between two boundaries: along one free value, the boundaries that the order guards draw, and a point in every gap between
    two of them; from points of the sample and from points around one boundary"""
    orders = [g for g in real_guards(ta, tb) if not g[3] and not any(b_.op == 'bv' for b_ in free(g[0]))][:7]
    if len(orders) < 2:
        return
    starts = list(base[:3])
    for g in orders:
        for s in base[:8]:
            qs = list(itertools.islice(at_boundary(*g, s, {}, space, tr), 0, 3))
            if qs:
                starts += qs
                break
    leaves = []
    for s in starts:
        keys = []
        for _, a, b, _ in orders:
            try:
                for k, nonneg in free_values(a, b, s, {}):
                    if k not in [x for x, _ in keys]:
                        keys.append((k, nonneg))
            except (Uneval, Uncertain, ZeroDivisionError, OverflowError):
                continue
        for k, nonneg in keys[:6]:
            kind = space.scal.get(k[1]) if k[0] == 'scal' else None
            if k[0] == 'scal' and kind is None or isinstance(kind, (list, tuple)) and not isinstance(kind, Among) or callable(kind):
                continue
            rs = set()
            for _, a, b, _ in orders:
                try:
                    r = meeting_value(a, b, False, s, k, {})
                except (Uneval, Uncertain, ZeroDivisionError, OverflowError, TypeError, ValueError):
                    continue
                if r is not None:
                    rs.add(r)
            rs = sorted(rs)
            for lo, hi in zip(rs, rs[1:]):
                r = (lo + hi) / 2
                if not hi - lo > Fraction(1, 10 ** 9) * max(abs(lo), abs(hi)) or not in_range(k, kind, r, nonneg):
                    continue
                z = s.force(k, r)
                try:
                    if all(z.ev(tr(c) if tr else c) for c in space.cons):
                        z.directed = True
                        yield z
                except (Uneval, Uncertain, ZeroDivisionError, OverflowError):
                    continue


def free_values(a, b, s, env):
    """the free choices two terms depend on at a point: [(key, never negative?)]"""
    leaves, seen = [], set()
    for t in list(walk(a)) + list(walk(b)):
        if t.op in ('sym', 'elem', 'app') and t not in seen:
            seen.add(t)
            # (variables bound inside the guard: their first values)
            envs = [env]
            inner = [v for v in sorted(free(t), key=lambda v: v.id) if v.op == 'bv' and v not in env]
            if len(inner) > 2:
                continue
            for v in inner:
                n = BV_N.get(v)
                if n is None:
                    envs = []
                    break
                envs = [{**e, v: i} for e in envs for i in (0, 1) if i < s.size(n, e)]
            for e in envs:
                k = s.leaf_key(t, e)
                if k is not None and k not in [x for x, _ in leaves]:
                    leaves.append((k, t.op == 'app' and t.args[0] in NONNEG or t.op == 'elem' and t.args[0].op == 'app' and t.args[0].args[0] in NONNEG_ELEMS
                                   or k[0] == 'sym' and bool(SYM_INFO.get(k[1], {}).get('nonneg'))))
    return leaves


def in_range(k, kind, r, nonneg):
    if isinstance(kind, Among):
        return kind.ok(r)
    if kind == 'pos' and r <= 0 or kind == 'nonneg' and r < 0 or kind == 'unit' and not 0 < r < 1 or kind == 'ge1' and r < 1:
        return False
    return not (nonneg and r < 0)


def meeting_value(a, b, eq, s, k, env):
    """the value of the free choice k at which a and b are equal; None if not found"""
    def f(v):
        if LIMIT[0] is not None and WORK[0] > LIMIT[0]:
            raise Enough()
        z = s.force(k, v)
        return z.ev(a, env) - z.ev(b, env)
    v0 = Fraction(1, 2)
    f0 = f(v0)
    if isinstance(f0, (bool, tuple)):
        return None
    for v1 in (Fraction(3, 2), Fraction(40), Fraction(-3)):
        f1 = f(v1)
        if isinstance(f1, (bool, tuple)) or f1 == f0 or (eq and (isinstance(f0, float) or isinstance(f1, float))):
            continue
        r = v0 - Fraction(f0) * (v1 - v0) / (Fraction(f1) - Fraction(f0))
        fr = f(r)
        if fr != 0 and not eq:
            # not linear between the two points: a few more steps of the secant
            for _ in range(14):
                if fr == f1:
                    break
                v1, f1, r = r, fr, r - Fraction(fr) * (r - v1) / (Fraction(fr) - Fraction(f1))
                r = r.limit_denominator(10 ** 7)
                fr = f(r)
                if abs(float(fr)) < 1e-6:
                    break
            if abs(float(fr)) > 1e-3:
                continue
        return r
    return None


def at_boundary(g, a, b, eq, s, env, space, tr):
    try:
        if eq and s.ev(g, env):
            return
        leaves = free_values(a, b, s, env)
    except (Uneval, Uncertain, ZeroDivisionError, OverflowError):
        return
    for k, nonneg in leaves[:8]:
        try:
            kind = space.scal.get(k[1]) if k[0] == 'scal' else None
            if k[0] == 'scal' and kind is None or isinstance(kind, (list, tuple)) and not isinstance(kind, Among) or callable(kind):
                continue
            r = meeting_value(a, b, eq, s, k, env)
            if r is None:
                continue
            got = []
            for r2 in ((r,) if eq else (r, r * Fraction(41, 40), r * Fraction(39, 40)) if r != 0 else (r, Fraction(1, 40), Fraction(-1, 40))):
                z = s.force(k, r2)
                if not in_range(k, kind, r2, nonneg) or eq and not z.ev(g, env):
                    continue
                if all(z.ev(tr(c) if tr else c) for c in space.cons):
                    z.directed = True
                    got.append(z)
            if got:
                yield from got
                return
        except (Uneval, Uncertain, ZeroDivisionError, OverflowError, TypeError, ValueError):
            continue


def by_zero(a, b, s):
    """a divides by zero where b is defined: is the IEEE result certainly another one, whichever sign the zero has?"""
    try:
        vb = s.ev(b)
        vs = [s.with_ieee(k).ev(a) for k in (1, -1)]
    except (Uncertain, Uneval, OverflowError, ValueError):
        return None
    if any(isinstance(v, (bool, tuple)) for v in vs + [vb]):
        return None
    if all(v != v or (isinstance(v, float) and math.isinf(v)) or not close_to(v, vb) for v in vs):
        return '%s (a division by zero) instead of %s' % (vs[0], fmt(vb))
    return None


def fmt(v):
    return '%.8g' % float(v) if not isinstance(v, (bool, tuple)) else str(v)


def nf_detail(a, b, s):
    try:
        N = Norm(s)
        return ' (normal forms %s and %s)' % (show_poly(N.nf(a), 200), show_poly(N.nf(b), 200))
    except Exception:
        return ''


def index_sigmas(s, idx):
    if not idx:
        yield s
        return
    try:
        dims = [s.size(n, {}) for _, n in idx]
    except (Uneval, Uncertain):
        return
    if any(d == 0 for d in dims):
        return
    # a few index choices
    seen = set()
    for k in range(2):
        pick = tuple((s.seed // (7 ** (k + j)) + k) % d for j, d in enumerate(dims))
        if pick in seen:
            continue
        seen.add(pick)
        yield s.sub({v: p for (v, _), p in zip(idx, pick)})


def match(cons, s):
    for k, v in cons.items():
        try:
            if isinstance(k, tuple):
                x = s.ev(k[1])
                if (x > 0) - (x < 0) != v:
                    return False
            elif s.ev(k) != v:
                return False
        except (Uneval, Uncertain):
            return False
    return True


def same_nf(a, b, s):
    """(True/False, consults): do a and b have the same normal form on the cell of s"""
    N = Norm(s)
    pa, pb = N.nf(a), N.nf(b)
    d = padd(pa, pb, -1)
    if N.is_zero(d):
        return True, N.consults
    if zero_deep(N, d):
        return True, N.consults
    if reduces(N, d):
        return True, N.consults
    # same non-negative square
    try:
        xa, xb = N.s.ev(a), N.s.ev(b)
        if (xa > 0 and xb > 0):
            N.sign_of(a)
            N.sign_of(b)
            if N.is_zero(padd(N.mulp(pa, pa), N.mulp(pb, pb), -1)):
                return True, N.consults
    except (Uneval, Uncertain, TooBig):
        pass
    return False, None


def reduces(N, d):
    """is d zero modulo the equalities that hold on the cell (each taken as a rewriting of one of its monomials)"""
    eqs = []
    ties = {}
    for k, v in list(N.consults.items()):
        try:
            if isinstance(k, tuple):
                if v == 0 and isinstance(k[1], E):
                    eqs.append(N.nf(k[1]))
            elif v is True and k.op in ('eq', 'feq') and len(k.args) == 2:
                eqs.append(padd(N.nf(k.args[0]), N.nf(k.args[1]), -1))
            elif k.op in ('flt', 'fle') and N.s.ev(k.args[0]) == N.s.ev(k.args[1]):
                # a tie: the cell is narrowed to it
                eqs.append(padd(N.nf(k.args[0]), N.nf(k.args[1]), -1))
                ties[len(eqs) - 1] = sub(k.args[0], k.args[1])
        except (Uneval, Uncertain, TooBig, AttributeError):
            continue
    for i, e in enumerate(eqs):
        if not e or len(e) > 8:
            continue
        for m0, c0 in list(e.items()):
            p, steps = d, 0
            while steps < 24:
                hit = None
                for m, c in p.items():
                    q = mquot(m, m0)
                    if q is not None:
                        hit = (q, c)
                        break
                if hit is None:
                    break
                f = N.mulp({hit[0]: Fraction(hit[1]) / c0}, e)
                p = padd(p, f, -1)
                steps += 1
                if N.is_zero(p):
                    if i in ties:
                        N.consults[('sgn', ties[i])] = 0
                    return True
    return False


def mquot(m, m0):
    """monomial m / m0, if m0 divides it"""
    if not m0:
        return None
    have = dict(m)
    for a, e in m0:
        if have.get(a, 0) < e or e < 0:
            return None
    for a, e in m0:
        have[a] -= e
    return tuple((a, have[a]) for a, _ in m if have[a] != 0)


def zero_deep(N, p, depth=0):
    """sums whose bodies agree pointwise: group the remaining sum atoms by domain and test the bodies at generic indices;
    reductions and guarded leaves are compared structurally with their bodies tested pointwise"""
    if depth > 3:
        return False
    groups = {}
    rest = {}
    for m, c in p.items():
        sums = [(a, e) for a, e in m if ATOMS[a][0] == 'sum']
        if len(sums) >= 1 and any(e == 1 for _, e in sums):
            a = [a for a, e in sums if e == 1][-1]
            at = ATOMS[a]
            dom = tuple(n for _, n in at[1])
            outer = tuple(x for x in m if x[0] != a)
            # body in canonical variables renamed to generic index symbols
            groups.setdefault(dom, []).append((outer, c, at))
        else:
            rest[m] = c
    if rest and not unify_leaves(N, rest, depth):
        return False
    for dom, items in groups.items():
        # domains must not depend on bound variables
        ids = []
        for nk in dom:
            ids.append(fresh('ix', 'N'))
        tot = {}
        for outer, c, at in items:
            if len(at[1]) != len(dom):
                return False
            mp = {b: i for (b, _), i in zip(at[1], ids)}
            m2 = ren_mono(at[2], mp)
            tot = padd(tot, N.fold({mmul(outer, m2): c}))
        if N.is_zero(tot):
            continue
        # pointwise, at every index of the sample's range
        try:
            ns = [N.s.size_poly(nk, N) if hasattr(N.s, 'size_poly') else poly_int(N, nk) for nk in dom]
        except (Uneval, Uncertain):
            return False
        import itertools
        combos = list(itertools.product(*[range(n) for n in ns]))[:9]
        for co in combos:
            s2 = N.s.sub(dict(zip(ids, co)))
            N2 = Norm(s2)
            try:
                q = renorm(N2, tot)
            except (Uneval, Uncertain, TooBig):
                return False
            if not N2.is_zero(q) and not zero_deep(N2, q, depth + 1):
                return False
            # the choices made at this index belong to the cell
            for k, v in N2.consults.items():
                ex = k[1] if isinstance(k, tuple) else k
                if not (set(ids) & free(ex)):
                    N.consults[k] = v
        if not combos:
            pass
        N.consults[('pw', dom, N.s.seed)] = None if False else N.consults.get(('pw', dom, N.s.seed))
        N.consults.pop(('pw', dom, N.s.seed))
    return True


def poly_int(N, nk):
    tot = Fraction(0)
    for m, c in nk:
        v = Fraction(c)
        for a, e in m:
            at = ATOMS[a]
            if at[0] != 'e' or e.denominator != 1 or e < 0:
                raise Uneval('range')
            v = v * N.s.ev(at[1]) ** int(e)
        tot += v
    return int(tot)


def renorm(N, p):
    """rebuild a polynomial after bound variables became index symbols: guards are now decidable"""
    out = {}
    for m, c in p.items():
        q = const(c)
        for a, e in m:
            at = ATOMS[a]
            r = renorm_atom(N, at)
            f = {((a, e),): Fraction(1)} if r is None else N.pow(r, e)
            q = N.mulp(q, f)
        out = padd(out, q)
    return out


def renorm_atom(N, at):
    k = at[0]
    if k in ('g', 'e'):
        return N.nf(at[1])
    if k == 'fn' and at[1] in ('exp', 'ln', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'tanh', 'sinh', 'cosh'):
        return N.func(at[1], renorm(N, unkey(at[2])))
    if k == 'poly':
        return renorm(N, unkey(at[1]))
    if k == 'abs':
        q = renorm(N, unkey(at[1]))
        return abs_poly(N, q)
    if k == 'sign':
        q = renorm(N, unkey(at[1]))
        v = poly_val(N, q)
        if v is None:
            return None
        if v == 0:
            raise Uncertain()
        return const(1 if v > 0 else -1)
    if k == 'sum':
        # renormalise the body (outer generic indices may decide guards)
        body = renorm(N, {at[2]: Fraction(1)})
        for b, n in reversed(at[1]):
            body = N.sum(b, renorm(N, unkey(n)), body)
        return body
    return None


def abs_poly(N, q):
    v = poly_val(N, q)
    if v is None:
        return N.absp(q)
    return q if v >= 0 else {m: -c for m, c in q.items()}


def poly_val(N, q):
    try:
        return sum((Fraction(c) * prod_val(N, m) for m, c in q.items()), Fraction(0))
    except (Uneval, Uncertain):
        return None


def prod_val(N, m):
    v = Fraction(1)
    for a, e in m:
        at = ATOMS[a]
        if at[0] != 'e' or e.denominator != 1:
            raise Uneval('atom')
        x = N.s.ev(at[1])
        if x == 0 and e < 0:
            raise Uneval('div')
        v = v * x ** int(e)
    return v


def unify_leaves(N, rest, depth):
    """pair off reductions ('red') and guarded leaves whose parts agree pointwise"""
    items = [(m, c) for m, c in rest.items()]
    used = [False] * len(items)
    for i, (m, c) in enumerate(items):
        if used[i]:
            continue
        found = False
        for j in range(i + 1, len(items)):
            m2, c2 = items[j]
            if used[j] or c2 != -c or len(m) != len(m2):
                continue
            if mono_equal(N, m, m2, depth):
                used[i] = used[j] = True
                found = True
                break
        if not found:
            return False
    return True


def mono_equal(N, m1, m2, depth):
    s1, s2 = set(m1), set(m2)
    r1, r2 = sorted(s1 - s2), sorted(s2 - s1)
    if len(r1) != len(r2):
        return False
    if len(r1) > 2:
        return False
    if len(r1) == 2:
        return all(atom_equal(N, a, e, b, f, depth) for (a, e), (b, f) in zip(r1, r2)) or \
            all(atom_equal(N, a, e, b, f, depth) for (a, e), (b, f) in zip(r1, r2[::-1]))
    return all(atom_equal(N, a, e, b, f, depth) for (a, e), (b, f) in zip(r1, r2))


def atom_equal(N, a, e, b, f, depth):
    if e != f:
        return False
    x, y = ATOMS[a], ATOMS[b]
    if x[0] != y[0]:
        return False
    if x[0] == 'red':
        if x[1] != y[1] or x[3] != y[3]:
            return False
        if x[5] != y[5]:
            return False
        i = fresh('ix', 'N')
        p = padd(ren_poly(unkey(x[4]), {x[2]: i}), ren_poly(unkey(y[4]), {y[2]: i}), -1)
        return pointwise(N, p, [i], [x[3]], depth)
    if x[0] in ('poly', 'abs') or (x[0] == 'fn' and x[1] == y[1] and len(x) == 3):
        k = 2 if x[0] == 'fn' else 1
        p = padd(unkey(x[k]), unkey(y[k]), -1)
        return N.is_zero(p) or zero_deep(N, p, depth + 1)
    if x[0] == 'app':
        return x[1] == y[1] and len(x[2]) == len(y[2]) and all(arg_equal(N, p, q, depth) for p, q in zip(x[2], y[2]))
    return False


def arg_equal(N, p, q, depth):
    if p == q:
        return True
    if not (isinstance(p, tuple) and isinstance(q, tuple) and p and q and p[0] == q[0]):
        return False
    if p[0] == 'P':
        d = padd(unkey(p[1]), unkey(q[1]), -1)
        return N.is_zero(d) or zero_deep(N, d, depth + 1)
    if p[0] == 'L':
        if len(p[1]) != len(q[1]) or p[2] != q[2]:
            return False
        if not (p[3][0] == 'P' and q[3][0] == 'P'):
            return False
        ids = [fresh('ix', 'N') for _ in p[1]]
        d = padd(ren_poly(unkey(p[3][1]), dict(zip(p[1], ids))), ren_poly(unkey(q[3][1]), dict(zip(q[1], ids))), -1)
        return pointwise(N, d, ids, p[2], depth)
    if len(p) != len(q):
        return False
    return all(arg_equal(N, x, y, depth) for x, y in zip(p[1:], q[1:]))


def pointwise(N, p, ids, dims, depth):
    import itertools
    if N.is_zero(p):
        return True
    try:
        ns = [poly_int(N, nk) for nk in dims]
    except (Uneval, Uncertain):
        return False
    for co in list(itertools.product(*[range(n) for n in ns]))[:9]:
        N2 = Norm(N.s.sub(dict(zip(ids, co))))
        try:
            q = renorm(N2, p)
        except (Uneval, Uncertain, TooBig):
            return False
        if not N2.is_zero(q) and not zero_deep(N2, q, depth + 1):
            return False
        for k, v in N2.consults.items():
            ex = k[1] if isinstance(k, tuple) else k
            if not (set(ids) & free(ex)):
                N.consults[k] = v
    return True


# ------------------------------------------------------------------ structured values
def equal_val(a, b, space, idx=(), path='', out=None):
    """compare two abstract values component by component; returns list of (path, Res)"""
    if out is None:
        out = []
    if isinstance(a, Cond) and not isinstance(b, Cond):
        equal_val(a.a, b, space.with_(cons=list(space.cons) + [a.c]), idx, path + '?1', out)
        equal_val(a.b, b, space.with_(cons=list(space.cons) + [not_(a.c)]), idx, path + '?0', out)
        return out
    if isinstance(b, Cond):
        equal_val(a, b.a, space.with_(cons=list(space.cons) + [b.c]), idx, path + '?1', out)
        equal_val(a, b.b, space.with_(cons=list(space.cons) + [not_(b.c)]), idx, path + '?0', out)
        return out
    if isinstance(b, Arr):
        if not isinstance(a, Arr):
            if isinstance(a, E) and a.op in ('sym', 'app', 'elem', 'fld', 'payload'):
                a = Arr(b.shape, b.bvs, elem(a, *b.bvs)) if isinstance(b.body, E) else a
            if not isinstance(a, Arr):
                out.append((path, Res('undecided', 0, 'not an array: %s' % show_val(a)[:200])))
                return out
        if len(a.shape) != len(b.shape):
            out.append((path, Res('violated', 0, 'array of rank %d instead of %d' % (len(a.shape), len(b.shape)))))
            return out
        for k, (x, y) in enumerate(zip(a.shape, b.shape)):
            out.append((path + '.shape%d' % k, equal(x, y, space, idx)))
        ids = [fresh('ix', 'N') for _ in b.shape]
        idx2 = list(idx) + list(zip(ids, b.shape))
        equal_val(a.at(*ids), b.at(*ids), space, idx2, path + '[%s]' % ','.join('*' for _ in ids), out)
        return out
    if isinstance(b, Tup):
        if not isinstance(a, Tup) or len(a.items) != len(b.items):
            out.append((path, Res('undecided', 0, 'not a tuple: %s' % show_val(a)[:200])))
            return out
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            equal_val(x, y, space, idx, path + '.%d' % i, out)
        return out
    if isinstance(b, Adt):
        if not isinstance(a, Adt):
            out.append((path, Res('undecided', 0, 'not a struct: %s' % show_val(a)[:200])))
            return out
        if a.variant != b.variant:
            out.append((path, Res('violated', 0, '%s instead of %s' % (a.variant, b.variant))))
            return out
        for k in b.fields:
            if k in a.fields:
                equal_val(a.fields[k], b.fields[k], space, idx, path + '.' + k, out)
        return out
    if isinstance(a, E) and isinstance(b, E):
        out.append((path, equal(a, b, space, idx)))
        return out
    out.append((path, Res('undecided', 0, 'values of different kinds: %s / %s' % (show_val(a)[:150], show_val(b)[:150]))))
    return out


# ------------------------------------------------------------------ preparation of expressions
def strip_int(e):
    """integer casts are the identity on the values they are applied to (assumption: no overflow)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('sym', 'bv', 'num', 'bool', 'str'):
            return x
        if x.op == 'int':
            r = go(x.args[0])
        else:
            args = tuple(_map_arg(a, go) for a in x.args)
            if args == x.args:
                r = x
            else:
                if x.op in BINDERS and args[1] is not x.args[1]:
                    nb = bvar(args[1], x.args[0].args[1])
                    args = (nb, args[1]) + tuple(subst(y, {x.args[0]: nb}) if isinstance(y, E) else y for y in args[2:])
                elif x.op == 'lam' and args[1] != x.args[1]:
                    nb = tuple(bvar(s, b.args[1]) for s, b in zip(args[1], x.args[0]))
                    args = (nb, args[1], subst(args[2], dict(zip(x.args[0], nb))))
                f = REBUILD.get(x.op)
                r = f(*args) if f else mk(x.op, *args)
        memo[x] = r
        return r
    return go(e)


from expr import _map_arg


def vmap(v, f):
    """apply an E -> E function inside a structured value"""
    if isinstance(v, E):
        return f(v)
    if isinstance(v, Arr):
        sh = tuple(f(s) for s in v.shape)
        if sh != v.shape:
            nb = [bvar(s, b.args[1]) for s, b in zip(sh, v.bvs)]
            return Arr(sh, nb, vmap(vsubst(v.body, dict(zip(v.bvs, nb))), f))
        return Arr(sh, v.bvs, vmap(v.body, f))
    if isinstance(v, Tup):
        return Tup([vmap(x, f) for x in v.items])
    if isinstance(v, Adt):
        return Adt(v.path, v.variant, {k: vmap(x, f) for k, x in v.fields.items()}, v.ty)
    if isinstance(v, Cond):
        return merge(f(v.c), vmap(v.a, f), vmap(v.b, f))
    return v


def densify(e, csc):
    """rewrite sums over the stored entries of one CSC column into sums over all rows of the dense matrix it represents:
       sum_{q < indptr[j+1]-indptr[j]} g(data[indptr[j]+q], indices[indptr[j]+q])  =  sum_{i<n} g(X[i,j], i)
    valid when g vanishes with its data entry (canonical CSC: each row index at most once per column)"""
    data, indices, indptr, X, n = csc
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('sym', 'bv', 'num', 'bool', 'str'):
            return x
        args = tuple(_map_arg(a, go) for a in x.args)
        if args != x.args:
            f = REBUILD.get(x.op)
            y = f(*args) if f else mk(x.op, *args)
        else:
            y = x
        if y.op == 'sum':
            y = dens_sum(y)
        memo[x] = y
        return y

    def dens_sum(y):
        bv, rng, body = y.args
        j = col_range(rng)
        if j is None:
            return y
        start = elem(indptr, j)
        datas, inds = [], []
        for x in walk(body):
            if x.op == 'elem' and x.args[0] in (data, indices) and bv in free(x):
                off = expand(sub(x.args[1], start))
                if off is not bv:
                    return y
                (datas if x.args[0] is data else inds).append(x)
        if not datas:
            return y
        if replace(body, {d: ZERO for d in datas}) is not ZERO and not vanishes(replace(body, {d: ZERO for d in datas})):
            return y
        i = bvar(n, 'i')
        m = {d: mk('elem', X, i, j) for d in datas}
        m.update({d: i for d in inds})
        b2 = replace(body, m)
        if bv in free(b2):
            return y
        return sum_(i, n, b2)

    def vanishes(z):
        return z is ZERO or (z.op == 'sel' and vanishes(z.args[1]) and vanishes(z.args[2])) or (z.op == 'mul' and ZERO in z.args)

    def col_range(rng):
        d, c = lin(rng)
        if c != 0 or len(d) != 2:
            return None
        hi = [m for m, k in d.items() if k == 1]
        lo = [m for m, k in d.items() if k == -1]
        if not (hi and lo and hi[0].op == 'elem' and lo[0].op == 'elem' and hi[0].args[0] is indptr and lo[0].args[0] is indptr):
            return None
        if expand(sub(hi[0].args[1], lo[0].args[1])) is not ONE:
            return None
        return lo[0].args[1]
    return go(e)
