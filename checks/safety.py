"""M08 and M09: shape and index obligations, and denominators.

Every function the mathematical checks interpret, both solvers (against the contract M01-M06 establish for the trait methods) and
the linear-system helper leave side conditions behind: an index below an extent, two shapes equal, a slice inside its axis, an
element count preserved, an unsigned subtraction that does not wrap, an integer divisor that is not zero, an assertion.  M08
decides each of them from its path condition and the ranges of the bound variables by linear reasoning over integers, with case
splits on selections, minima and maxima.  M09 walks the value graph of every result and of every loop state and decides, under
the conditions that guard it, that a denominator cannot vanish.

A side condition is reported only with an assignment of the dimensions, parameters and entries on which the value graph makes it
fail; one that is neither derived nor refuted is undecided.
"""
import itertools
import random
from api import *
from decide import *
from sigma import Sigma, Uneval, Uncertain
import maths


# ------------------------------------------------------------------ what is analysed
class Catch:
    """stands in for the report while the other checks interpret their functions: keeps results and input spaces"""

    def __init__(self):
        self.spaces, self.vals, self.out = [], [], []

    def val(self, key, where, a, b, space, *r, **k):
        self.spaces.append(space)
        self.vals.append((key, a))

    def regions(self, key, where, a, b, space, *r, **k):
        self.val(key, where, a, b, space)

    def analysed(self, I):
        self.out.append((I, self.spaces, self.vals))
        self.spaces, self.vals = [], []

    def __getattr__(self, n):
        return lambda *a, **k: None


def sources(api, rep):
    """(interpretation, spaces, results)"""
    for pid in ('M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'M07'):
        c = Catch()
        try:
            getattr(maths, pid)(api, c)
        except Missing as ex:
            rep.und('%s: anchor' % pid, '', str(ex))
        yield from c.out


def solver_models(api, rep):
    import solver
    for multi in (False, True):
        try:
            M = solver.Model(api, multi, barriers=solver.solve_barrier)
        except Missing as ex:
            rep.und('%s solver: anchor' % ('block' if multi else 'single-task'), '', str(ex))
            continue
        yield M


# ------------------------------------------------------------------ linear integer reasoning
def conj(cs):
    for c in cs:
        if c.op == 'and':
            yield from conj(c.args)
        elif c.op == 'not' and c.args[0].op == 'or':
            yield from conj([not_(x) for x in c.args[0].args])
        elif c.op == 'not' and c.args[0].op == 'not':
            yield from conj([c.args[0].args[0]])
        else:
            yield c


def intish(e):
    if e.op in ('imax', 'imin', 'mod', 'idiv', 'first', 'int', 'bv', 'shape'):
        return True
    if e.op == 'sel':
        return intish(e.args[1]) and intish(e.args[2])
    if e.op in ('add', 'mul'):
        return all(intish(x) for x in e.args)
    return isint(e) or natural(e)


def facts_of(cs):
    """linear facts: expressions that are >= 0"""
    out = []
    for c in conj(cs):
        n = c.op == 'not'
        x = c.args[0] if n else c
        if x.op == 'lt':
            a, b = x.args
            out.append(sub(a, b) if n else sub(sub(b, a), ONE))
        elif x.op == 'eq' and not n and intish(x.args[0]) and intish(x.args[1]):
            a, b = x.args
            out += [sub(a, b), sub(b, a)]
        elif x.op == 'eq' and n and intish(x.args[0]) and intish(x.args[1]):
            for a, b in (x.args, x.args[::-1]):
                if b is ZERO:
                    out.append(sub(a, ONE))         # a natural number that is not zero
    return out


def apart(cs):
    """pairs of integers known to differ"""
    return [c.args[0].args for c in conj(cs) if c.op == 'not' and c.args[0].op == 'eq' and all(intish(x) for x in c.args[0].args)]


def strip(e):
    return strip_int(e) if isinstance(e, E) else e


def ones(e):
    """sums of 0/1 selections: at most the number of terms"""
    return e.op == 'sel' and all(x in (ZERO, ONE) for x in e.args[1:])


def bounds(m):
    """(lower, upper) alternatives of an atom: lists of expressions, any one is valid"""
    info = SYM_INFO.get(m, {})
    lo, hi = [ZERO] if natural(m) else [], []
    if m.op == 'bv':
        n = BV_N.get(m)
        lo = [ZERO]
        if n is not None:
            n = strip(n)
            if n.op == 'imax' and ZERO in n.args:       # a position exists, so the other one is the larger
                n = next(x for x in n.args if x is not ZERO)
            hi.append(sub(n, ONE))
    if m.op == 'sym':
        if info.get('min') is not None:
            lo = [num(info['min'])]
        for k in ('lt', 'max'):
            if isinstance(info.get(k), E):
                hi.append(sub(info[k], ONE))
        if isinstance(info.get('max_'), E):
            hi.append(info['max_'])
    if m.op == 'mod':
        hi += [sub(m.args[1], ONE), m.args[0]]
    if m.op == 'idiv':
        hi.append(m.args[0])
    if m.op == 'first':
        hi.append(sub(m.args[1], ONE))      # only read where one exists
    if m.op == 'sum' and ones(m.args[2]):
        hi.append(m.args[1])
    if m.op == 'elem':
        a = m.args[0]
        ai = SYM_INFO.get(a, {}) if a.op == 'sym' else {}
        if ai.get('emax') is not None:
            hi.append(sub(ai['emax'], ONE))
        if a is maths.PTRs:
            hi.append(maths.NNZ)
            for f in (lambda k: k,):
                hi.append(elem(a, add(m.args[1], ONE)))
        if a.op == 'app' and a.args[0] == 'sorted':
            base = a.args[1]
            if base.op == 'lam' and len(base.args[0]) == 1:
                hi.append(base.args[2])
        if a.op == 'lam' and len(a.args[0]) == len(m.args) - 1:
            b = subst(a.args[2], dict(zip(a.args[0], m.args[1:])))
            hi.append(b)
            lo = [b]
    return lo, hi


def natural(m):
    return nonneg_int(m) or m.op in ('bv', 'mod', 'idiv', 'first', 'shape') or (m.op == 'sum' and ones(m.args[2])) or \
        (m.op == 'sym' and m.args[1] == 'N') or \
        (m.op == 'elem' and (m.args[0] in (maths.PTRs, maths.INDs) or (m.args[0].op == 'app' and m.args[0].args[0] == 'sorted') or
                             (m.args[0].op == 'sym' and SYM_INFO.get(m.args[0], {}).get('esort') == 'N')))


def sels(e):
    for x in walk(e):
        if x.op in ('sel', 'imin', 'imax') and not any(b in free(x) and False for b in ()):
            return x
    return None


class Prover:
    def __init__(self, cs):
        self.cs = [strip(c) for c in cs]
        self.budget = 4000
        base = facts_of(self.cs)
        self.extra = []
        for a, b in apart(self.cs):
            for x, y in ((a, b), (b, a)):
                if self.ge0(sub(x, y), base):
                    self.extra.append(sub(sub(x, y), ONE))
        self.budget = 4000

    def ge0(self, e, facts=None, depth=0):
        """e >= 0?  True or False (not derived)"""
        self.budget -= 1
        if depth > 9 or self.budget < 0:
            return False
        facts = facts_of(self.cs) + self.extra if facts is None else facts
        e = expand(e)
        d, c = lin(e)
        if all(k >= 0 and natural(m) for m, k in d.items()):
            low = c
            for m, k in d.items():
                lo = [x for x in bounds(m)[0] if is_num(x)]
                low += k * max([val(x) for x in lo] or [0])
            if low >= 0:
                return True
        rest = lambda m: unlin({x: k for x, k in d.items() if x is not m}, c)
        for m, k in d.items():
            if m.op == 'bv' and k < 0:
                for v in bounds(m)[1]:
                    if self.ge0(expand(add(rest(m), mul(num(k), v))), facts, depth + 1):
                        return True
        for m, k in d.items():
            put = lambda v: expand(add(rest(m), mul(num(k), v)))
            if m.op in ('imin', 'imax'):
                alls = (m.op == 'imin') == (k > 0)
                f = all if alls else any
                return f(self.ge0(put(a), facts, depth + 1) for a in m.args)
            if m.op == 'sel':
                cnd, a, b = m.args
                return self.ge0(put(a), facts + facts_of([cnd]), depth + 1) and self.ge0(put(b), facts + facts_of([not_(cnd)]), depth + 1)
            if m.op == 'mul' and any(f.op in ('imin', 'imax', 'sel') for f in m.args):
                f = next(f for f in m.args if f.op in ('imin', 'imax', 'sel'))
                g = [x for x in m.args if x is not f]
                if all(natural(x) for x in g):
                    if f.op == 'sel':
                        return self.ge0(put(mul(f.args[1], *g)), facts + facts_of([f.args[0]]), depth + 1) and \
                            self.ge0(put(mul(f.args[2], *g)), facts + facts_of([not_(f.args[0])]), depth + 1)
                    alls = (f.op == 'imin') == (k > 0)
                    return (all if alls else any)(self.ge0(put(mul(a, *g)), facts, depth + 1) for a in f.args)
        for m, k in sorted(d.items(), key=lambda x: (x[0].op != 'bv', x[0].id)):
            put = lambda v: expand(add(rest(m), mul(num(k), v)))
            lo, hi = bounds(m)
            for v in (hi if k < 0 else lo):
                if v is not ZERO or k < 0:
                    if m not in set(walk(v)) and self.ge0(put(v), facts, depth + 1):
                        return True
            if m.op == 'mul':
                for f in m.args:
                    g = [x for x in m.args if x is not f]
                    if all(natural(x) for x in g):
                        lo, hi = bounds(f)
                        for v in (hi if k < 0 else lo):
                            if (v is not ZERO or k < 0) and f not in set(walk(v)) and self.ge0(put(expand(mul(v, *g))), facts, depth + 1):
                                return True
        if depth < 5:
            for i, f in enumerate(facts):
                fd, _ = lin(expand(f))
                if any(m in fd and (fd[m] > 0) == (k > 0) for m, k in d.items()):
                    if self.ge0(sub(e, f), facts[:i] + facts[i + 1:], depth + 1):
                        return True
        return False

    def eq(self, a, b):
        a, b = strip(a), strip(b)
        if expand(sub(a, b)) is ZERO or canon(a) is canon(b):
            return True
        x, y = (list(e.args) if e.op == 'mul' else [e] for e in (a, b))
        for f in list(x):
            if f in y and natural(f):
                x.remove(f)
                y.remove(f)
        a, b = mul(*x), mul(*y)
        return self.ge0(sub(a, b)) and self.ge0(sub(b, a))


def impossible(pc):
    """one of the conditions contradicts the others"""
    cs = [strip(c) for c in conj(pc)]
    for k in reversed(range(len(cs))):
        c = cs[k]
        x = c.args[0] if c.op == 'not' else c
        if x.op not in ('lt', 'eq') or not all(intish(y) for y in x.args):
            continue
        P = Prover(cs[:k] + cs[k + 1:])
        a, b = x.args
        if c.op == 'not':
            if x.op == 'eq' and P.eq(a, b) or x.op == 'lt' and P.ge0(sub(sub(b, a), ONE)):
                return True
        elif x.op == 'lt' and P.ge0(sub(a, b)) or x.op == 'eq' and (P.ge0(sub(sub(a, b), ONE)) or P.ge0(sub(sub(b, a), ONE))):
            return True
    return False


def goals(ef):
    """what has to hold: list of ('ge0', e) / ('eq', a, b, may broadcast) / ('never',)"""
    k, d = ef.kind, ef.data
    if k == 'index':
        out = []
        for n, i in zip(d[0], d[1]):
            out += [('ge0', i), ('ge0', sub(sub(n, i), ONE))]
        return out
    if k == 'colindex':
        return [('ge0', d[1]), ('ge0', sub(sub(d[0], d[1]), ONE))]
    if k == 'shapeeq':
        a, b = d[0], d[1]
        if len(a) != len(b):
            return [('never',)]
        what = d[2] if len(d) > 2 else 'contract'
        return [('eq', x, y, 'either' if what in ('add', 'sub', 'mul', 'div') else 'right' if what in ('assign', 'scaled_add', 'zip_mut_with', 'Zip::and') else '')
                for x, y in zip(a, b)]
    if k == 'fitdim':
        return [('eq', d[0], d[1], '')]
    if k == 'reshape':
        return [('eq', d[0], d[1], '')]
    if k == 'usub':
        return [('ge0', sub(d[0], d[1]))]
    if k == 'slicerange':
        lo, hi, n = d
        return [('ge0', lo), ('ge0', sub(hi, lo)), ('ge0', sub(n, hi))]
    if k == 'idiv':
        return [('ge0', sub(d, ONE))]
    if k == 'panic':
        return [('never',)]
    return []


def describe(g):
    if g[0] == 'ge0':
        return '%s >= 0' % show(g[1])[:160]
    if g[0] == 'eq':
        return '%s == %s' % (show(g[1])[:110], show(g[2])[:110])
    return 'never reached'


# ------------------------------------------------------------------ witnesses
class Assign(Sigma):
    """numeric assignment in which sortings are permutations and curvature constants may vanish"""

    def sub(self, extra):
        s = Assign(self.scal, self.arrs, self.seed, nmin=self.nmin, nmax=self.nmax)
        s.scal.update(extra)
        s.pool = self.pool
        return s

    def _ev(self, e, env):
        if e.op == 'elem' and e.args[0].op == 'app' and e.args[0].args[0] == 'sorted':
            base = e.args[0].args[1]
            if base.op == 'lam' and len(base.args[0]) == 1 and base.args[2] is base.args[0][0]:
                n = self.size(base.args[1][0], env)
                i = int(self.ev(e.args[1], env))
                if not 0 <= i < n:
                    raise Uneval('position')
                r = random.Random('%s/%s' % (self.seed, n))
                perm = list(range(n))
                r.shuffle(perm)
                return perm[i]
            raise Uneval('sorting')
        if e.op == 'elem' and e.args[0].op == 'lam' and len(e.args[0].args[0]) == len(e.args) - 1:
            l = e.args[0]
            return self.ev(l.args[2], {**env, **{b: int(self.ev(i, env)) for b, i in zip(l.args[0], e.args[1:])}})
        if e.op == 'elem' and e.args[0].op == 'app' and e.args[0].args[0] == 'lipschitz':
            k = [int(self.ev(i, env)) for i in e.args[1:]]
            return Fraction(random.Random('%s lip %s' % (self.seed, k)).choice((0, 1, 2, 3)))
        return Sigma._ev(self, e, env)


BAD = ('top', 'payload', 'isvar', 'proj', 'constpat')


def vague(e):
    """parts whose numeric value cannot be chosen freely: unresolved integer state, unknown values and unknown extents"""
    for x in walk(e):
        if x.op in BAD or x.op == 'app' and x.args[0] == 'filtered':
            return x
        if x.op == 'fld' and x.args[0].op not in ('sym',):
            return x
        if x.op == 'shape' and not (x.args[0].op == 'sym' and SYM_INFO.get(x.args[0], {}).get('shape')):
            return x
        if x.op == 'sym' and x.args[1] in ('N', 'Z', 'A', 'B') and str(x.args[0]).split(':')[0].split('#')[0] in ('phi', 'out', 'flag', 'loopret'):
            if x.args[1] != 'A' or SYM_INFO.get(x, {}).get('esort') in ('N', 'Z', 'B'):
                return x
    return None


def floaty(c):
    """a test of real values: either outcome is possible for some data"""
    c = c.args[0] if c.op == 'not' else c
    if c.op in ('and', 'or'):
        return all(floaty(x) for x in c.args)
    if c.op == 'any':
        return floaty(c.args[2])
    return c.op in ('flt', 'fle', 'feq') or (c.op == 'eq' and not (intish(c.args[0]) and intish(c.args[1]))) or \
        (c.op == 'app' and c.args[0] == 'solvable') or (c.op == 'sym' and c.args[1] == 'B' and not vague(c))


def place(s, vs, env):
    """values for the free bound variables, outermost first; None when a range is empty"""
    todo = list(vs)
    env = dict(env)
    for _ in range(len(todo) + 1):
        for b in list(todo):
            n = BV_N.get(b)
            if n is None:
                return None
            need = [x for x in free(n) if x.op == 'bv']
            if any(x in BV_N and x not in env for x in need):
                for x in need:
                    if x not in env and x not in todo:
                        todo.append(x)
                continue
            k = s.size(n, env)
            if k <= 0:
                return None
            env[b] = (s.seed >> (3 * len(env) + 1)) % k if (s.seed & 3) else k - 1
            todo.remove(b)
        if not todo:
            return env
    return None


def fails(g, s, env):
    if g[0] == 'never':
        return True
    if g[0] == 'ge0':
        return s.ev(g[1], env) < 0
    a, b = s.ev(g[1], env), s.ev(g[2], env)
    if a == b:
        return False
    if g[3] == 'either' and 1 in (a, b):
        return False
    if g[3] == 'right' and b == 1:
        return False
    return True


def bound_syms(es):
    """index symbols that range below an extent"""
    out = {}
    for e in es:
        for x in walk(e):
            if x.op == 'sym' and x.args[1] == 'N':
                i = SYM_INFO.get(x, {})
                u = i.get('lt') if isinstance(i.get('lt'), E) else i.get('max') if isinstance(i.get('max'), E) else None
                if u is not None:
                    out[x] = u
    return out


def refute(g, pc, samples, strict, data):
    """an assignment on which the condition fails while its path condition holds; None if there is none among the samples"""
    es = [strip(x) for x in g[1:] if isinstance(x, E)]
    g = (g[0],) + tuple(strip(x) if isinstance(x, E) else x for x in g[1:])
    cs = [strip(c) for c in conj(pc)]
    if g[0] == 'never' and data != 'rank' and (not cs or floaty(cs[-1]) or vague(cs[-1])):
        return None
    if any(vague(e) for e in es) or strict and unsolved(*es, *cs):
        return None
    need, free_ = [], []
    for c in cs:
        (free_ if not strict and floaty(c) else need).append(c)
    if any(vague(c) for c in need):
        return None
    solv = any(x.op == 'app' and x.args[0] == 'solvable' for c in cs for x in walk(c))
    idx = bound_syms(es + need)
    vs = [b for e in es + need for b in free(e) if b.op == 'bv' and b in BV_N]
    for s0 in samples(solv):
        try:
            s = s0.sub({}) if not idx else s0.sub({v: s0.seed % max(1, s0.size(u, {})) for v, u in idx.items()})
            s.arrs = s0.arrs
            env = place(s, set(vs), {})
            if env is None:
                continue
            if not all(s.ev(c, env) for c in need):
                continue
            if fails(g, s, env):
                txt = ['%s=%s' % (x.args[0], s.scal[x]) for x in sorted({y for e in es + need for y in walk(e) if y.op == 'sym' and y.args[1] in ('N', 'B', 'R')}, key=lambda x: str(x.args[0])) if x in s.scal]
                return ', '.join(txt[:14]) or 'any input'
        except (Uneval, Uncertain, OverflowError):
            continue
    return None


def blank(s):
    """the same sample with some of the real entries (not those that define the structure of a sparse matrix) set to zero"""
    mode = (s.seed >> 5) % 4

    def wrap(a, f):
        def g(*i):
            z = random.Random('%s %s %s' % (s.seed, a.args[0], [int(x) for x in i])).random()
            return Fraction(0) if mode == 3 or z < (0, .3, .7)[mode] else f(*i)
        return g
    s.arrs = {a: (wrap(a, f) if SYM_INFO.get(a, {}).get('esort') == 'R' and a not in (maths.DATAs, maths.Xsym) else f) for a, f in (s.arrs or {}).items()}
    return s


def solver_samples(n=400):
    import solver as S

    def f(solv):
        rng = random.Random(5)
        for k in range(n):
            p = rng.randint(1, 6)
            K = rng.randint(1, 6)
            ws = rng.randint(1, 8)
            if solv:
                K = rng.randint(1, 3)
                ws = rng.randint(K, 8)
                p = rng.randint(K, 6)
            sc = {S.NF: p, S.NS: rng.choice((2, 3, 5, 7)), S.NT: rng.choice((1, 2, 3)), S.WS0: ws, S.KK: K, S.MAXIT: rng.randint(1, 9),
                  S.MAXEP: rng.randint(1, 24), S.TOL: Fraction(1, 100), S.ACC: True, S.VERB: True}
            s = Assign(sc, None, seed=rng.randint(0, 1 << 40))
            s.pool = [Fraction(0)] * rng.choice((0, 1, 6)) + [Fraction(3, 2), Fraction(-1), Fraction(2)]
            yield s
    return f


def space_samples(spaces, n=120):
    def f(solv):
        for sp in spaces:
            dims = {k: v if not isinstance(v, (list, tuple)) else sorted(set(v) | {2, 3, 5}) for k, v in sp.dims.items()}
            for pool in (None, [Fraction(0)]):
                for s in sp.with_(dims=dims).samples(n=n, pool=pool):
                    yield blank(s)
        if not spaces:
            rng = random.Random(7)
            for _ in range(n):
                yield Sigma({}, None, seed=rng.randint(0, 1 << 30), nmin=1, nmax=5)
    return f


def lin_samples(K):
    def f(solv):
        rng = random.Random(9)
        for k in range(160):
            s = Assign({K: rng.randint(1, 6)}, None, seed=rng.randint(0, 1 << 40))
            s.pool = [Fraction(0), Fraction(1), Fraction(2)]
            yield s
    return f


def short(fn):
    p = (fn or '?').replace('sparseglm::', '')
    return p.split('::')[-1] if '{closure' not in p else '::'.join(x for x in p.split('::')[-3:] if not x.startswith('{'))


def decide(rep, tag, I, samples, strict, seen):
    for ef in I.effects:
        gs = goals(ef)
        if not gs:
            continue
        where = '%s:%s' % ((ef.site or ('?', 0))[0], (ef.site or ('?', 0))[1])
        if ef.kind == 'panic' and 'Ordering' in str(ef.data):
            continue                # comparing NaN: N02
        for k, g in enumerate(gs):
            ident = (ef.site, ef.kind, k, tuple(canon(x).id if isinstance(x, E) else x for x in g), tuple(canon(c).id for c in ef.pc))
            if ident in seen:
                continue
            seen.add(ident)
            rep.count(ef.kind)
            key = '%s %s: %s (%s) #%d' % (tag, short(ef.fn), describe(g), ef.kind, len(seen))
            P = Prover(ef.pc)
            if any(has_top(x) for x in g[1:] if isinstance(x, E)):
                rep.und(key, where, 'a position or extent is not understood')
                continue
            if g[0] == 'ge0' and P.ge0(strip(g[1])) or g[0] == 'eq' and P.eq(g[1], g[2]) or impossible(ef.pc):
                rep.ok(key, where)
                continue
            w = refute(g, ef.pc, samples, strict, 'rank' if ef.kind == 'shapeeq' else None)
            if w:
                rep.bad(key, where, '%s fails for %s' % (describe(g), w))
            else:
                rep.und(key, where, 'neither derived nor refuted')


def M08(api, rep):
    seen = set()
    for I, spaces, _ in sources(api, rep):
        rep.analysed(I)
        decide(rep, 'library', I, space_samples(spaces), True, seen)
    for M in solver_models(api, rep):
        rep.analysed(M.I)
        decide(rep, 'block solver' if M.multi else 'single-task solver', M.I, solver_samples(), False, seen)
    import linsys
    try:
        H = linsys.Helper(api)
        rep.analysed(H.I)
        decide(rep, 'linear systems', H.I, lin_samples(H.K), False, seen)
    except linsys.Stuck as ex:
        rep.und('linear systems', 'solve_lin_sys', str(ex))


# ------------------------------------------------------------------ M09: denominators
def leaves(v, conds=()):
    """(expression, conditions) of a structured value"""
    if isinstance(v, E):
        yield v, conds
    elif isinstance(v, Arr):
        yield from leaves(v.body, conds)
    elif isinstance(v, Cond):
        yield v.c, conds
        yield from leaves(v.a, conds + (v.c,))
        yield from leaves(v.b, conds + (not_(v.c),))
    elif isinstance(v, Tup):
        for x in v.items:
            yield from leaves(x, conds)
    elif isinstance(v, Adt):
        for x in v.fields.values():
            yield from leaves(x, conds)


DOMAIN = ('div', 'ln', 'powf')


def denominators(e, conds=(), out=None, seen=None):
    """{(kind, denominator or argument, conditions that guard it)} of one expression; both parts of a disjunction or conjunction are
    evaluated in order"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    k = (e.id, frozenset(c.id for c in conds))
    if k in seen or not touches(e):
        return out
    seen.add(k)
    if len(seen) > 20000:
        out['limit'] = True
        return out
    rec = lambda x, c=conds: denominators(x, c, out, seen)
    if e.op == 'div':
        out[('div', e.args[1], conds)] = e
    elif e.op == 'ln':
        out[('ln', e.args[0], conds)] = e
    elif e.op == 'powf' and is_num(e.args[1]) and val(e.args[1]) < 0:
        out[('pow', e.args[0], conds)] = e
    if e.op == 'sel':
        rec(e.args[0])
        rec(e.args[1], conds + (e.args[0],))
        rec(e.args[2], conds + (not_(e.args[0]),))
    elif e.op in ('and', 'or'):
        c = conds
        for x in e.args:
            rec(x, c)
            c = c + ((x if e.op == 'and' else not_(x)),)
    elif e.op == 'scat':
        rec(e.args[2])
        rec(e.args[3], conds + (e.args[2],))
        rec(e.args[4])
    else:
        for x in children(e):
            rec(x)
    return out


TOUCH = {}


def touches(e):
    """contains a partial operation"""
    r = TOUCH.get(e.id)
    if r is None:
        r = TOUCH[e.id] = e.op in DOMAIN or any(touches(x) for x in children(e))
    return r


def padd_(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        r[m] = r.get(m, 0) + c * k
        if not r[m]:
            del r[m]
    return r


def pmul_(p, q):
    r = {}
    for m, k in p.items():
        for n, l in q.items():
            x = tuple(sorted(m + n, key=lambda a: a.id))
            r[x] = r.get(x, 0) + k * l
            if not r[x]:
                del r[x]
    return r


def rat(e):
    """(numerator, denominator) polynomials over atoms"""
    if e.op == 'num':
        return ({(): val(e)} if val(e) else {}), {(): Fraction(1)}
    if e.op == 'add':
        n, d = {}, {(): Fraction(1)}
        for x in e.args:
            a, b = rat(x)
            if b == d:
                n = padd_(n, a)
            else:
                n, d = padd_(pmul_(n, b), pmul_(a, d)), pmul_(d, b)
        return cancel(n, d)
    if e.op == 'mul':
        n, d = {(): Fraction(1)}, {(): Fraction(1)}
        for x in e.args:
            a, b = rat(x)
            n, d = pmul_(n, a), pmul_(d, b)
        return cancel(n, d)
    if e.op == 'div':
        a, b = rat(e.args[0])
        c, d = rat(e.args[1])
        return cancel(pmul_(a, d), pmul_(b, c))
    if e.op == 'int':
        return rat(e.args[0])
    return {(e,): Fraction(1)}, {(): Fraction(1)}


def cancel(n, d):
    """common single atoms"""
    if len(n) > 60 or len(d) > 60:
        return n, d
    for a in {x for m in d for x in m}:
        while n and all(a in m for m in n) and all(a in m for m in d):
            def less(p):
                r = {}
                for m, k in p.items():
                    l = list(m)
                    l.remove(a)
                    r[tuple(l)] = k
                return r
            n, d = less(n), less(d)
    return n, d


def unpoly(p):
    return add(*[mul(num(k), *m) for m, k in p.items()]) if p else ZERO


class Signs:
    """signs of real expressions under conditions; `low` gives lower bounds of parameters (None: any real)"""

    def __init__(self, conds, low, high, deep=True):
        self.low, self.high = low, high
        self.deep = deep
        self.facts = []             # (strict, expression): > 0 or >= 0
        self.nz = []                # expressions that are not zero
        self.anynz = []             # (bound variable, extent, expression): not all zero
        self.other = []
        for c in conj(conds):
            n = c.op == 'not'
            x = c.args[0] if n else c
            if x.op in ('lt', 'flt', 'fle'):
                a, b = (strip(y) for y in x.args)
                le = x.op == 'fle'
                self.facts.append((le if n else not le, sub(a, b) if n else sub(b, a)))
            elif x.op in ('eq', 'feq'):
                d = sub(strip(x.args[0]), strip(x.args[1]))
                if n:
                    if d.op == 'mul' and is_num(d.args[0]):
                        d = mul(*d.args[1:])
                    self.nz.append(d)
                else:
                    self.facts += [(False, d), (False, neg(d))]
            elif x.op == 'any' and not n:
                for y in ([x.args[2]] if x.args[2].op != 'or' else x.args[2].args):
                    if y.op == 'not' and y.args[0].op in ('eq', 'feq') and ZERO in y.args[0].args and x.args[2].op != 'or':
                        f = [z for z in y.args[0].args if z is not ZERO]
                        self.anynz.append((x.args[0], x.args[1], f[0]))
                    elif y.op in ('flt', 'lt') and y.args[0] is ZERO and x.args[2].op != 'or':
                        self.anynz.append((x.args[0], x.args[1], y.args[1]))
            else:
                self.other.append(c)
        bare = lambda f: bare(f.args[0]) if f.op in ('abs', 'sqrt') else f
        self.nz = [bare(f) for f in self.nz]
        self.anynz = [(b, n, bare(f)) for b, n, f in self.anynz]
        self.depth = 0

    def same(self, a, b):
        return a is b or canon(a) is canon(b) or expand(sub(a, b)) is ZERO

    def pos(self, e):
        return self._sign(e, True)

    def nonneg(self, e):
        return self._sign(e, False)

    def _sign(self, e, strict):
        e = strip(e)
        if self.depth > 6:
            return False
        self.depth += 1
        try:
            if self.basic(e, strict):
                return True
            x = expand(e)
            if x is not e and self.basic(x, strict):
                return True
            for r, v in self.moved():
                y = expand(subst(e, {r: v}))
                if r in set(walk(e)) and self.basic(y, strict):
                    return True
            if self.deep:
                for s, f in self.facts:
                    if self.same(f, e) and (s or not strict):
                        return True
                for s, f in self.facts:
                    d = expand(sub(e, f))
                    if len(d.args if d.op == 'add' else (d,)) > len(x.args if x.op == 'add' else (x,)) + 1:
                        continue
                    if self.basic(d, strict and not s):
                        return True
            if e.op in ('add', 'mul', 'div'):
                n, d = rat(e)
                if d != {(): Fraction(1)} and len(n) < 8:
                    D = unpoly(d)
                    if self.pos(D):
                        return self._sign(unpoly(n), strict)
            return False
        finally:
            self.depth -= 1

    def moved(self):
        for r, h in self.high.items():
            yield r, sub(h, sym(str(r.args[0]) + "'", 'R', nonneg=True))
        for r, l in self.low.items():
            if l is not ZERO and l != 'pos':
                yield r, add(l, sym(str(r.args[0]) + "''", 'R', nonneg=True))

    def basic(self, e, strict):
        op, a = e.op, e.args
        if op == 'num':
            return val(e) > 0 if strict else val(e) >= 0
        if op == 'sym':
            if a[1] == 'N':
                i = SYM_INFO.get(e, {})
                return not strict or (i.get('min') or 0) >= 1
            l = self.low.get(e)
            if l is not None:
                return not strict or l == 'pos' or (l is not ZERO and val(l) > 0)
            return not strict and bool(SYM_INFO.get(e, {}).get('nonneg'))
        if op in ('exp', 'cosh'):
            return True
        if op == 'int':
            return self._sign(a[0], strict)
        if op == 'add':
            if not all(self.nonneg(x) for x in a):
                return False
            return not strict or any(self.pos(x) for x in a)
        if op == 'mul':
            cnt = {}
            for x in a:
                cnt[x] = cnt.get(x, 0) + 1
            for x, k in cnt.items():
                if k % 2 == 0:
                    if strict and not self.nonzero(x):
                        return False
                elif not self._sign(x, strict):
                    return False
            return True
        if op == 'div':
            return self._sign(a[0], strict) and self.pos(a[1])
        if op == 'sqrt':
            return not strict or self.pos(a[0])
        if op == 'abs':
            return not strict or self.nonzero(a[0])
        if op == 'max':
            return any(self._sign(x, strict) for x in a)
        if op == 'min':
            return all(self._sign(x, strict) for x in a)
        if op == 'powf':
            if is_num(a[1]) and val(a[1]) > 0:
                return self._sign(a[0], strict)
            return self.pos(a[0])
        if op == 'sel':
            return all(Signs([c] + self.raw(), self.low, self.high)._sign(x, strict) for c, x in ((a[0], a[1]), (not_(a[0]), a[2])))
        if op == 'sum':
            if strict:
                for b, n, f in self.anynz:
                    if self.same(n, a[1]) or canon(n) is canon(a[1]):
                        f2 = subst(f, {b: a[0]})
                        if self.same(a[2], mul(f2, f2)) or self.same(a[2], fabs(f2)):
                            return True
                return self.gram(e)
            return self.nonneg(a[2])
        if op == 'elem' and natural(e):
            return not strict
        if op == 'app' and a[0] in ('dist',):
            return not strict
        return not strict and natural(e)

    def raw(self):
        out = [flt(ZERO, f) if s else fle(ZERO, f) for s, f in self.facts]
        return out + [not_(feq(ZERO, f)) for f in self.nz]

    def gram(self, e):
        """the sum of the solution of a regular Gram system with right-hand side one"""
        b, n, body = e.args
        if not (body.op == 'elem' and body.args[0].op == 'app' and body.args[0].args[0] == 'solve' and body.args[1:] == (b,)):
            return False
        G, r = body.args[0].args[1:]
        if not any(c.op == 'app' and c.args[0] == 'solvable' and c.args[1] is G and c.args[2] is r for c in self.other):
            return False
        if not (r.op == 'lam' and r.args[2] is ONE and G.op == 'lam' and len(G.args[0]) == 2):
            return False
        return is_gram(G.args[0], G.args[2])

    def nonzero(self, e):
        e = strip(e)
        if self.depth > 6:
            return False
        self.depth += 1
        try:
            if self.pos(e) or self.pos(expand(neg(e))):
                return True
            for f in self.nz:
                if self.same(f, e) or self.same(f, neg(e)):
                    return True
                if f.op in ('abs', 'sqrt') and self.same(f.args[0], e):
                    return True
                if f.op == 'mul' and any(self.same(x, e) for x in f.args):
                    return True
            if e.op == 'mul':
                return all(self.nonzero(x) for x in e.args)
            if e.op in ('abs', 'sqrt', 'int'):
                return self.nonzero(e.args[0])
            if e.op == 'div':
                return self.nonzero(e.args[0])
            if e.op == 'powf' and is_num(e.args[1]) and val(e.args[1]) > 0:
                return self.nonzero(e.args[0])
            if e.op == 'sel':
                return all(Signs([c] + self.raw() + self.other, self.low, self.high).nonzero(x)
                           for c, x in ((e.args[0], e.args[1]), (not_(e.args[0]), e.args[2])))
            if self.deep:
                return self.contradiction(e)
            return False
        finally:
            self.depth -= 1

    def contradiction(self, e):
        """where e vanishes its conditions exclude each other"""
        for s, root in roots(e):
            m = {s: root}
            fs = []
            for st, f in self.facts:
                n, d = rat(strip(subst(f, m)))
                if not n or self.quick(unpoly(d)):
                    fs.append((st, n))
            for st, n in fs:
                if not n and st:
                    return True
                if set(n) == {()} and (n[()] < 0 or (st and n[()] <= 0)):
                    return True
                for st2, n2 in fs:
                    if (st or st2) and n and n2 and set(n) == set(n2):
                        m0 = next(iter(n))
                        k = n2[m0] / n[m0]
                        if k < 0 and all(n2[x] == k * n[x] for x in n):
                            return True
            # the root lies outside the range of the parameter
            low, high = self.low.get(s), self.high.get(s)
            T = Signs([], self.low, self.high, deep=False)
            if low is not None:
                l = ZERO if low == 'pos' else low
                gap = sub(l, root)
                if T.pos(gap) or (low == 'pos' and T.nonneg(gap)):
                    return True
            if high is not None and T.pos(sub(root, high)):
                return True
        return False

    def quick(self, e):
        return Signs([], self.low, self.high, deep=False).pos(e)


def roots(e):
    """(symbol, value) where the numerator of e vanishes, for the symbols in which it is linear with a constant coefficient"""
    n, _ = rat(strip(e))
    for s in sorted({a for m in n for a in m if a.op == 'sym'}, key=lambda a: str(a.args[0])):
        with_ = {m: k for m, k in n.items() if s in m}
        if any(m.count(s) > 1 for m in with_) or any(s in set(walk(a)) and a is not s for m in n for a in m):
            continue
        rest = unpoly({m: k for m, k in n.items() if s not in m})
        if set(with_) == {(s,)}:
            yield s, mul(num(-1 / with_[(s,)]), rest)


def is_gram(bvs, body):
    """symmetric positive semidefinite by construction: sums of f(a) f(b)"""
    a, b = bvs
    if body.op == 'sum' and a not in free(body.args[1]) and b not in free(body.args[1]):
        return is_gram(bvs, body.args[2])
    body = body if body.op in ('mul', 'add') else expand(body)
    if body.op == 'add':
        if all(is_gram(bvs, x) for x in body.args):
            return True
        fs = factor_pair(bvs, body)
        return fs
    if body.op == 'mul':
        fa = [x for x in body.args if a in free(x)]
        fb = [x for x in body.args if b in free(x)]
        if any(a in free(x) for x in fb):
            return False
        rest = [x for x in body.args if x not in fa and x not in fb]
        if any(not (is_num(x) and val(x) > 0) for x in rest):
            return False
        t = fresh('g', 'N')
        return canon(subst(mul(*fa), {a: t})) is canon(subst(mul(*fb), {b: t}))
    return False


def factor_pair(bvs, body):
    return False


LOW = {maths.ALPHA: ZERO, maths.STEP: 'pos', maths.GAMMA: ONE, maths.RATIO: ZERO}
HIGH = {maths.RATIO: ONE}


def vanishing(y, conds, spaces):
    """a sample on which the denominator is exactly zero while the conditions that guard it hold"""
    y, cs = strip(y), [strip(c) for c in conj(conds)]
    if any(vague(x) for x in [y] + cs) or unsolved(y, *cs):
        return None
    vs = {b for e in [y] + cs for b in free(e) if b.op == 'bv' and b in BV_N}
    kinds = None
    for sp in spaces:
        strata = list(sp.strata)
        for s, root in list(roots(y))[:3]:
            if s in sp.scal:
                strata.append(('%s = %s' % (s.args[0], show(root)), lambda e, m={s: root}: subst(e, m)))
        for nm, tr in strata:
            f = tr or (lambda e: e)
            for s in itertools.chain(sp.with_(n=60).samples(transform=tr), (blank(s) for s in sp.with_(n=60).samples(transform=tr, pool=[Fraction(0)]))):
                try:
                    ok = all(admissible(k, s.ev(f(k))) for k in sp.scal)
                    if not ok:
                        continue
                    env = place(s, vs, {})
                    if env is None:
                        continue
                    if not all(s.ev(f(c), env) for c in cs):
                        continue
                    v = s.ev(f(y), env)
                    if isinstance(v, (int, Fraction)) and v == 0:
                        txt = ['%s=%s' % (k.args[0], s.ev(f(k))) for k in sp.scal]
                        return ', '.join(txt) + (' (%s)' % nm if nm != 'generic' else '') or 'any input'
                except (Uneval, Uncertain, OverflowError):
                    continue
    return None


def admissible(k, v):
    if k is maths.ALPHA:
        return v >= 0
    if k is maths.RATIO:
        return 0 <= v <= 1
    if k is maths.GAMMA:
        return v >= 1
    if k is maths.STEP:
        return v > 0
    return True


def partial(rep, tag, where, found, spaces, seen, solver=False):
    if found.pop('limit', None):
        rep.und(tag + ': too many paths', where, '')
    for (kind, y, conds), e in found.items():
        y = strip(y)
        ident = (kind, canon(y).id, frozenset(canon(c).id for c in conj(conds)))
        if ident in seen:
            continue
        seen.add(ident)
        rep.count({'div': 'divisions', 'ln': 'logarithms', 'pow': 'negative powers'}[kind])
        if kind == 'div' and is_num(y) and val(y) != 0:
            rep.ok('%s: constant denominator #%d' % (tag, len(seen)), where)
            continue
        what = {'div': 'denominator', 'ln': 'argument of ln', 'pow': 'base of a negative power'}[kind]
        key = '%s: %s %s #%d' % (tag, what, show(y)[:140], len(seen))
        if has_top(y):
            rep.und(key, where, 'not understood')
            continue
        S = Signs(conds, LOW, HIGH)
        if S.pos(y) if kind != 'div' else S.nonzero(y):
            rep.ok(key, where)
            continue
        if solver:
            w = zero_in_solver(y, conds)
        else:
            w = vanishing(y, conds, spaces)
        if w:
            rep.bad(key, where, '%s %s is zero for %s' % (what, show(y)[:200], w))
        else:
            rep.und(key, where, 'neither derived nor refuted under %s' % [show(c)[:120] for c in conds])


def zero_in_solver(y, conds):
    """only curvature constants (a column may be zero) and the answers of the helper for singular systems (the iterates of two epochs
    may agree) can be made to vanish at will, whatever the iterates are; other quantities of the conditions are left alone"""
    y, cs = strip(y), [strip(c) for c in conj(conds)]
    is_lip = lambda x: x.op == 'elem' and x.args[0].op == 'app' and x.args[0].args[0] == 'lipschitz'
    is_solv = lambda x: x.op == 'app' and x.args[0] == 'solvable'
    par, named, done = {}, {}, set()

    def collect(x):
        if x.id in done:
            return True
        done.add(x.id)
        if not (is_lip(x) or is_solv(x)):
            return all([collect(z) for z in children(x)])
        if is_lip(x) and any(z.op == 'app' and z.args[0] == 'lipschitz' for i in x.args[1:] for z in walk(i)):
            return False
        k = canon(x)
        par[x] = named.setdefault(k, sym('curvature%d' % len(named), 'R', nonneg=True) if is_lip(x) else sym('regular%d' % len(named), 'B'))
        return True
    if not all([collect(e) for e in [y] + cs]):
        return None
    y2, c2 = replace(y, par), [replace(c, par) for c in cs]
    names = set(par.values())
    mine = {z for z in walk(y2)} & names
    if not mine:
        return None
    need = []
    for c in c2:
        ws = set(walk(c))
        state = any(x.op == 'sym' and str(x.args[0]).split(':')[0] in ('phi', 'out', 'flag') for x in ws)
        if ws & mine:
            if state or any(x.op in ('app', 'elem') for x in ws):
                return None
            need.append(c)
        elif any(z.op == 'app' and z.args[0] in ('lipschitz', 'solvable') for z in ws) or ws & names:
            if state or any(x.op in ('app', 'elem') for x in ws):
                return None
            if any(k.op == 'elem' and not is_num(k.args[1]) for k, v in named.items() if v in ws):
                return None         # the same feature under another index?
            need.append(c)
        elif floaty(c):
            if any(x.op == 'sym' and str(x.args[0]).split(':')[0] in ('phi', 'out', 'flag') and
                   (x.args[1] in ('N', 'Z', 'B') or (x.args[1] == 'A' and SYM_INFO.get(x, {}).get('esort') in ('N', 'Z', 'B'))) for x in ws):
                return None
        elif c.op not in ('eq', 'lt', 'not') or vague(c):
            return None             # integer conditions without state hold somewhere: they select a position or an epoch
    for s0 in solver_samples(60)(False):
        for v in (0, 1):
            try:
                s = s0.sub({q: (Fraction(0) if q.args[1] == 'R' else False) if q in mine else (Fraction(1) if q.args[1] == 'R' else bool(v)) for q in names})
                if not all(s.ev(c) for c in need):
                    continue
                r = s.ev(y2)
                if isinstance(r, (int, Fraction)) and r == 0:
                    return 'a column of zeros' if any(q.args[1] == 'R' for q in mine) else 'a singular extrapolation matrix'
            except (Uneval, Uncertain, OverflowError):
                continue
    return None


def M09(api, rep):
    seen = set()
    for I, spaces, vals in sources(api, rep):
        rep.analysed(I)
        for (key, v), sp in zip(vals, spaces):
            rep.count('results')
            for e, conds in leaves(v):
                partial(rep, key, '', denominators(strip(e) if isinstance(e, E) else e, conds), [sp], seen)
    for M in solver_models(api, rep):
        rep.analysed(M.I)
        tag = 'block solver' if M.multi else 'single-task solver'
        for rec in M.I.loops:
            where = '%s:%s' % tuple((rec.site or ('?', 0))[:2])
            for l in rec.leaves:
                rep.count('loop states')
                for part in ('init', 'step'):
                    if l.get(part) is None:
                        continue
                    for e, conds in leaves(l[part]):
                        partial(rep, '%s %s.%s' % (tag, l['name'], part), where, denominators(e, tuple(rec.pc) + conds), None, seen, solver=True)
            for c, lv, bv in rec.exits:
                pass
        for e, conds in leaves(M.result):
            partial(rep, '%s result' % tag, M.loc, denominators(e, conds), None, seen, solver=True)
