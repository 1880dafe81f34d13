"""Y07: the data generator and the largest useful penalty of the Python package."""
import os
from api import *
from decide import *
import pyint as P
import pynum as N
from pyint import Const, Sym, vkey
from pynum import SV, NA

FILE = 'python/sparseglm/utils.py'
n_, p_, T_ = (sym('n_samples', 'N', min=1), sym('n_features', 'N', min=1), sym('n_tasks', 'N', min=1))
CORR, SNR, DENS = sym('corr', 'R'), sym('snr', 'R'), sym('density', 'R')
Fr = Fraction
INFV = float('inf')


def load(api):
    prog = P.PyProgram(os.path.join(api.repo, 'python', 'sparseglm'))
    if not os.path.exists(prog.path('utils')):
        raise Missing(FILE)
    m = prog.module('utils')
    return prog, m


def fn(m, name):
    f = m.env.get(name)
    if not isinstance(f, P.Func):
        raise Missing('%s in %s' % (name, FILE))
    return f


class Path:
    """one path: its outcome, the inputs that take it"""

    def __init__(self, o):
        self.o, self.I = o, o.I
        self.sub = {p_: o.I.simp[p_]} if p_ in o.I.simp and o.I.simp[p_].op == 'num' else {}
        pos = {feq(NINF, SNR): FALSE, flt(SNR, ZERO): FALSE, fle(ZERO, SNR): TRUE, fle(SNR, ZERO): FALSE, flt(ZERO, SNR): TRUE}     # (the ratio is positive)
        conds = [(replace(c, pos), r) for c, r in o.I.conds]
        for c, r in conds:
            if r and c.op in ('eq', 'feq'):
                for a, b in (c.args, c.args[::-1]):
                    if a.op == 'sym' and b.op in ('num', 'inf'):
                        self.sub[a] = b
                        break
        cons = [subst(c if r else not_(c), self.sub) for c, r in conds]
        consts = {}
        for c, _ in conds:
            vs = [val(x) for x in walk(c) if x.op == 'num']
            for s in free(c):
                consts.setdefault(s, set()).update(vs)
        more = lambda s, l, ok=lambda v: True: l + [v for c in sorted(consts.get(s, ())) for v in (c, c + 1, c - 1, c * Fr(9, 10), c * Fr(11, 10)) if ok(v)]
        reals = lambda s, l, ok=lambda v: True: Among(more(s, l, ok), ok)
        nat = lambda v: v >= 1 and v == int(v)
        self.scal = {CORR: reals(CORR, [Fr(0), Fr(3, 10), Fr(3, 5), Fr(9, 10), Fr(-1, 100), Fr(-1, 2), Fr(1), Fr(3, 2), Fr(99, 100)]),
                     SNR: reals(SNR, [Fr(1, 2), Fr(3), Fr(10), Fr(3), INFV], lambda v: v > 0),
                     DENS: reals(DENS, [Fr(1, 5), Fr(1, 2), Fr(1), Fr(2, 3), Fr(0), Fr(-1, 3), Fr(101, 100)])}
        self.dims = {n_: [int(v) for v in more(n_, [1, 2, 3, 2], nat)], p_: [int(v) for v in more(p_, [1, 2, 3, 4, 5, 7], nat)],
                     T_: [int(v) for v in more(T_, [1, 2, 3, 2], nat)]}
        for s in list(self.scal):
            if s in self.sub:
                del self.scal[s]
        self.dims = {k: v for k, v in self.dims.items() if k not in self.sub}
        self.space = Space(self.scal, cons, None, self.arrs, n=60, dims=self.dims)

    def arrs(self, s, rng):
        out = {}
        for D, info in self.I.draws.items():
            if info['kind'] == 'choice':
                def f(*i, D=D, info=info, seed=rng.randint(0, 1 << 30)):
                    k = max(1, int(s.ev(subst(info['population'], self.sub))))
                    if info['replace']:
                        return random.Random('%s %s' % (seed, tuple(map(int, i)))).randrange(k)
                    q = list(range(k))
                    random.Random(seed).shuffle(q)
                    return q[int(i[-1]) % k]
                out[D] = f
        return out

    def s(self, e):
        return subst(e, self.sub)

    def feasible(self):
        return list(self.space.samples(n=12))


def nodes(I, e, kind):
    return [x for x in sorted(set(walk(e)), key=lambda x: x.id) if x.op == 'elem' and x.args[0] in I.draws and I.draws[x.args[0]]['kind'] == kind]


def strange(I, *es):
    """contents the analysis knows nothing about"""
    for e in es:
        for x in walk(e):
            if x.op == 'sym' and SYM_INFO.get(x, {}).get('unknown') or x.op == 'sym' and str(x.args[0]).startswith(('before', 'step')) or x.op == 'top':
                return 'contents after a loop are not known (%s)' % x.args[0]
    return None


def undefined(e):
    return next((x for x in walk(e) if x.op == 'sym' and SYM_INFO.get(x, {}).get('undef')), None)


def best(rs):
    """some form is it; none is; cannot tell"""
    for r in rs:
        if r.status == 'held':
            return r
    und = [r for r in rs if r.status == 'undecided']
    return und[0] if und else rs[0] if rs else None


def has(arg, i):
    return expand(sub(arg, i)) is ZERO


# ---------------------------------------------------------------- the design
def design(rep, key, w, pa, X):
    I = pa.I
    i, c = sym('sample', 'N'), sym('column', 'N')
    if len(X.shape) != 2 or not (I.dimeq(X.shape[0], n_) and I.dimeq(X.shape[1], p_)):
        rep.bad(key + ':shape', w, 'the design is of shape (%s)' % ', '.join(show(x) for x in X.shape))
        return set()
    rep.ok(key + ':shape', w)
    e = pa.s(X.at(i, c))
    cols = []                       # (name, column expression at i, previous, extra constraints, number)
    if e.op == 'elem' and e.args[0] in I.defs:
        F_ = e.args[0]
        d = I.defs[F_]
        if not has(e.args[1 + d['dim']], c) or not any(has(a, i) for k, a in enumerate(e.args[1:]) if k != d['dim']):
            rep.und(key + ':columns', w, 'the design is not the table filled in the loop (%s)' % show(e)[:200])
            return set()
        at = lambda arr, q: pa.s(subst(arr.at(*([i] if d['dim'] == 1 else []), q, *([i] if d['dim'] == 0 else [])), {}))
        L = int(val(d['lo']) + d['off'])
        if L < 0 or L > 8:
            rep.und(key + ':columns', w, 'the loop starts at column %d' % L)
            return set()
        end = expand(sub(add(d['hi'], num(d['off'])), p_))
        end = pa.s(end)
        if end is not ZERO:
            lo_, hi_ = lower(end), lower(neg(end))
            if hi_ is not None and hi_ >= 1:
                rep.bad(key + ':columns', w, 'the last columns of the design are never written: the loop stops at %s of %s' % (show(d['hi']), show(p_)))
                return set()
            rep.und(key + ':columns', w, 'the loop runs to %s' % show(d['hi']))
            return set()
        arr = d['steps'][-1]
        for q in range(L + 4):
            cols.append(('column %d' % q, at(arr, num(q)), at(arr, num(q - 1)) if q else None, q))
        g = subst(d['col'], {d['j']: sub(c, num(d['off'])), d['at'][0]: i})
        prev = elem(F_, *(sub(a, ONE) if k == d['dim'] else a for k, a in enumerate(e.args[1:])))
        cols.append(('every column', pa.s(g), pa.s(prev), None))
        first = L + 1
    else:
        for q in range(3):
            cols.append(('column %d' % q, pa.s(X.at(i, num(q))), pa.s(X.at(i, num(q - 1))) if q else None, q))
        if p_ not in pa.sub:
            cols.append(('every column', e, pa.s(X.at(i, sub(c, ONE))), None))
        first = 1
    used = []
    corr = pa.s(CORR)
    for name, e, prev, q in cols:
        k = '%s:%s' % (key, name)
        u = undefined(e)
        if u is not None:
            rep.bad(k, w, 'the column is never written: its entries are those of uninitialised memory')
            continue
        st = strange(I, e)
        cand = nodes(I, e, 'normal')
        sp = pa.space.with_(cons=pa.space.cons + [pa.s(ilt(num(q if q is not None else first), p_))], n=30)
        if not any(True for _ in sp.samples(n=1)):
            continue                # there is no such column
        c2 = sym('column past the first', 'N')
        gen = (lambda x: subst(x, {c: add(num(first), c2)})) if q is None else lambda x: x
        ix = [(i, n_)] + ([(c2, pa.s(sub(p_, num(first))))] if q is None else [])
        rs = []
        hit = None
        for z in cand:
            if not any(has(a, i) for a in z.args[1:]):
                continue
            for sg in (ONE, num(-1)):
                t = mul(sg, z) if prev is None else add(mul(corr, prev), mul(sg, fsqrt(sub(ONE, powi(corr, num(2)))), z))
                r = equal(gen(e), gen(t), sp, ix)
                rs.append(r)
                if r.status == 'held':
                    hit = z
                    break
            if hit is not None:
                break
        if hit is None:
            if st or any(r.status == 'undecided' for r in rs):
                rep.und(k, w, st or rs[0].detail)
                continue
            rep.bad(k, w, '%s at %s: %s' % ('standard normal draws are expected' if prev is None else 'corr times the column before plus sqrt(1 - corr^2) times '
                                            'standard normal draws is expected', name, rs[0].detail if rs else 'no draw for every sample occurs in ' + show(e)[:160]))
            continue
        rep.ok(k, w)
        used.append((name, q, hit))
    # no draw serves two columns
    k = key + ':fresh draws'
    bad = None
    for a, (na, qa, za) in enumerate(used):
        if qa is None:
            if not any(expand(sub(x, c)).op == 'num' for x in za.args[1:]):
                bad = 'the same draws serve every column'
            for nb, qb, zb in used:
                if qb is not None and qb < first and zb.args[0] is za.args[0]:
                    # is there a column >= first with the entries of column qb
                    ds = [expand(sub(x, y)) for x, y in zip(za.args[1:], zb.args[1:])]
                    if all(x is ZERO or c in free(x) for x in ds):
                        for q2 in range(first, first + 6):
                            if all(expand(subst(x, {c: num(q2)})) is ZERO for x in ds):
                                bad = 'the draws of column %d serve column %d as well' % (qb, q2)
            continue
        for nb, qb, zb in used[a + 1:]:
            if qb is not None and za is zb:
                bad = '%s and %s use the same draws' % (na, nb)
    if used:
        rep.check(k, w, bad is None, bad or '')
    return {z.args[0] for _, _, z in used}


def drawn(I, e):
    """the draws an array comes from, through tables filled in loops"""
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        for y in walk(x):
            if y.op == 'sym' and y in I.draws:
                out.add(y)
            if y.op == 'sym' and y in I.defs and y not in seen:
                seen.add(y)
                d = I.defs[y]
                todo += [d['col']] + [a.body for a in d['steps']] + [d['start'].body]
    return out


# ---------------------------------------------------------------- the simulated coefficients
def coefficients(rep, key, w, pa, W, one):
    I = pa.I
    f, t = sym('feature', 'N'), sym('task', 'N', lt=T_)
    e = pa.s(W.at(f) if len(W.shape) == 1 else W.at(f, t))
    st = strange(I, e)
    sup, ks = None, []
    for x in sorted(set(walk(e)), key=lambda x: x.id):
        if x.op == 'any':
            for y in walk(x):
                if y.op == 'elem' and y.args[0] in I.draws and I.draws[y.args[0]]['kind'] == 'choice':
                    sup, K = y.args[0], x.args[1]
                    ks.append((sup, K))
    if st or not ks:
        (rep.und if st or undefined(e) is not None else rep.bad)(key, w, st or 'the rows that are not zero are not a random choice of features: %s' % show(e)[:200])
        return
    sup, K = ks[0]
    info = I.draws[sup]
    rep.check(key + ':support', w, not info['replace'] and I.dimeq(pa.s(info['population']), pa.s(p_)),
              'the support is drawn %s from %s features' % ('with replacement' if info['replace'] else 'without replacement', show(info['population'])))
    rep.res(key + ':support size', w, equal(pa.s(K), pa.s(mk('floor', mul(DENS, p_))), pa.space))
    rs = []
    for z in nodes(I, e, 'normal'):
        D = z.args[0]
        ar = len(z.args) - 1
        if ar > 2:
            continue
        q = bvar(K, 'q')
        tt = ZERO if one else t
        row = sum_(q, K, sel(ieq(elem(sup, q), f), elem(D, q, *([tt] if ar == 2 else [])), ZERO))
        q2 = bvar(K, 'q')
        rs.append(equal(e, sel(any_(q2, K, ieq(elem(sup, q2), f)), row, ZERO), pa.space, [(f, p_)] + ([] if one else [(t, T_)])))
    r = best(rs)
    if r is None:
        rep.bad(key + ':values', w, 'the coefficients on the support are not standard normal draws: %s' % show(e)[:200])
    else:
        rep.res(key + ':values', w, r)


# ---------------------------------------------------------------- the targets
def targets(rep, key, w, pa, X, Y, W, one):
    I = pa.I
    i, t = sym('sample', 'N'), sym('task', 'N', lt=T_)
    want = (n_,) if one else (n_, T_)
    if len(Y.shape) != len(want) or not all(I.dimeq(a, b) for a, b in zip(Y.shape, want)):
        rep.bad(key + ':shape', w, 'the targets are of shape (%s)' % ', '.join(show(x) for x in Y.shape))
        return set()
    rep.ok(key + ':shape', w)

    def fit(i, t):
        q = bvar(p_, 'c')
        wv = W.at(q) if len(W.shape) == 1 else W.at(q, ZERO if one else t)
        return pa.s(sum_(q, p_, mul(X.at(i, q), wv)))
    T = ONE if one else pa.s(T_)
    y = pa.s(Y.at(i) if one else Y.at(i, t))
    ix = [(i, n_)] + ([] if one else [(t, T_)])
    st = strange(I, y)
    if pa.s(SNR).op == 'inf':
        rep.res(key + ':no noise', w, Res('undecided', 0, st) if st else equal(y, fit(i, t), pa.space, ix))
        return set()

    def total(g):
        a, b = bvar(n_, 'a'), bvar(T, 'b')
        x = g(a, ZERO if one else b)
        x = mul(x, x)
        return fsqrt(sum_(a, n_, x if one else sum_(b, T, x)))
    mine = drawn(I, pa.s(X.at(i, sym('column', 'N')))) | drawn(I, pa.s(W.at(sym('feature', 'N'), *([t] if len(W.shape) == 2 else []))))
    rs, hit = [], None
    for z in nodes(I, y, 'normal'):
        if any(free(a) & {b for b in free(a) if b.op == 'bv'} for a in z.args[1:]) or not any(has(a, i) for a in z.args[1:]) or not one and not any(has(a, t) for a in z.args[1:]):
            continue
        g = lambda a, b, z=z: elem(z.args[0], *[subst(x, {i: a, t: b}) for x in z.args[1:]])
        r = equal(y, add(fit(i, t), div(mul(z, total(fit)), mul(total(g), pa.s(SNR)))), pa.space, ix)
        rs.append(r)
        if r.status == 'held':
            hit = z
            break
    r = best(rs)
    if st and hit is None:
        rep.und(key + ':noise', w, st)
    elif r is None:
        # no noise at all: is the targets' noise missing?
        z = equal(y, fit(i, t), pa.space.with_(cons=pa.space.cons + [flt(pa.s(SNR), num(10 ** 6))]), ix)
        if z.status == 'held':
            rep.bad(key + ':noise', w, 'there is no noise for a finite signal-to-noise ratio')
        else:
            rep.bad(key + ':noise', w, 'no independent normal draw per sample%s occurs in the targets: %s' % ('' if one else ' and task', show(y)[:200]))
    else:
        rep.res(key + ':noise', w, r)
    if hit is not None:
        rep.check(key + ':independent noise', w, hit.args[0] not in mine, 'the noise consists of draws the design or the coefficients are made of')
    return set()


# ---------------------------------------------------------------- one call
class Only:
    """takes violations alone: an input of one size that breaks the property"""

    def __init__(self, rep, pre):
        self.rep, self.pre, self.fns = rep, pre, rep.fns

    def ok(self, *a):
        pass

    und = ok

    def bad(self, k, w, d):
        self.rep.bad(self.pre + k, w, d)

    def check(self, k, w, ok, d=''):
        if not ok:
            self.bad(k, w, d)

    def res(self, k, w, r):
        if r.status == 'violated':
            self.rep.res(self.pre + k, w, r)


def simulate(api, rep, prog, m, case, wkind):
    und = lambda: sum(1 for o in rep.obs if o['status'] == 'undecided')
    before = und()
    simulate_at(api, rep, prog, m, case, wkind, None)
    if und() > before:
        simulate_at(api, Only(rep, 'with three features:'), prog, m, case + ', three features', wkind, 3)


def simulate_at(api, rep, prog, m, case, wkind, size):
    f = fn(m, 'make_correlated_data')
    w = '%s make_correlated_data, %s' % (FILE, case)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    need = ['n_samples', 'n_features', 'n_tasks', 'corr', 'snr', 'density', 'w_true', 'random_state']
    if not set(need) <= set(names):
        raise Missing('parameters of make_correlated_data')
    RS = Sym('random_state')

    def body(I):
        Wt = None
        if size is not None:
            I.simp[p_] = num(size)
        if wkind == 'given, one task':
            Wt = mkarray('w_true', (p_,))[0]
        elif wkind == 'given':
            Wt = mkarray('W_true', (p_, T_))[0]
        g = I.wrap(Wt) if Wt is not None else None
        kw = {'n_samples': SV(n_, 'int'), 'n_features': SV(p_, 'int'), 'n_tasks': Const(1) if wkind == 'given, one task' else SV(T_, 'int'),
              'corr': SV(CORR, 'float'), 'snr': SV(SNR, 'float'), 'density': SV(DENS, 'float'), 'w_true': g if g is not None else P.NONE, 'random_state': RS}
        I.given = (g, Wt)
        return I.call(f, [], kw, f.node)
    outs = N.paths(prog, body)
    got = 0
    for o in outs:
        rep.fns |= {'%s::%s' % (FILE, x) for x in o.I.fns}
        pa = Path(o)
        ss = pa.feasible()
        if not ss:
            continue
        got += 1
        label = ', '.join('%s%s' % ('' if r else 'not ', show(c)[:40]) for c, r in o.I.conds)
        key = '%s[%s]' % (wkind, label)
        if o.kind == 'unknown':
            rep.und(key, w, o.val)
            continue

        def valid(s):
            c, d = s.ev(pa.s(CORR)), s.ev(pa.s(DENS))
            return 0 <= c < 1 and 0 < d <= 1
        vs = [(s, valid(s)) for s in ss]
        at = lambda s: 'corr=%s, density=%s, snr=%s' % tuple(s.ev(pa.s(x)) for x in (CORR, DENS, SNR))
        if o.kind == 'raise':
            wrong = next((s for s, v in vs if v), None)
            rep.check(key + ':rejected', w, wrong is None, 'valid arguments end in %r: %s' % (o.val, at(wrong)) if wrong else '')
            if wrong is None:
                rep.check(key + ':ValueError', w, 'ValueError' in o.val.names(), 'invalid arguments end in %r' % o.val)
            continue
        wrong = next((s for s, v in vs if not v), None)
        rep.check(key + ':accepted', w, wrong is None, 'arguments outside the documented ranges are accepted: %s' % at(wrong) if wrong else '')
        if wrong is not None:
            continue
        r = o.val
        if not (isinstance(r, P.Seq) and len(r.xs) == 3 and all(isinstance(x, NA) for x in r.xs)):
            rep.und(key, w, 'returns %r' % (r,))
            continue
        X, Y, W = r.xs
        I = o.I
        one = wkind == 'given, one task' or pa.s(T_) is ONE
        design(rep, key + ':design', w, pa, X)
        wantw = (p_,) if one else (p_, T_)
        if len(W.shape) != len(wantw) or not all(I.dimeq(a, b) for a, b in zip(W.shape, wantw)):
            rep.bad(key + ':coefficients:shape', w, 'the coefficients are of shape (%s)' % ', '.join(show(x) for x in W.shape))
            continue
        g, W0 = I.given
        fe, ta = sym('feature', 'N'), sym('task', 'N', lt=T_)
        if g is None:
            coefficients(rep, key + ':coefficients', w, pa, W, one)
        else:
            ix = [(fe, p_)] + ([] if one else [(ta, T_)])
            want = W0.at(fe) if len(W0.shape) == 1 else W0.at(fe, ZERO if one else ta)
            rep.res(key + ':coefficients:returned', w, equal(pa.s(W.at(fe) if len(W.shape) == 1 else W.at(fe, ta)), pa.s(want), pa.space, ix))
            now = g.buf.arr
            ab = (fe,) if len(W0.shape) == 1 else (fe, ta)
            rep.res(key + ':coefficients:left alone', w, equal(pa.s(now.at(*ab)), pa.s(W0.at(*ab)), pa.space, [(fe, p_)] + ([(ta, T_)] if len(ab) == 2 else [])))
        targets(rep, key + ':targets', w, pa, X, Y, W, one)
        # where the randomness comes from
        idx = [sym('sample', 'N'), sym('column', 'N'), fe, ta]
        ds = drawn(I, X.at(idx[0], idx[1])) | drawn(I, Y.at(idx[0], *([ta] if len(Y.shape) == 2 else []))) | drawn(I, W.at(fe, *([ta] if len(W.shape) == 2 else [])))
        gens = {I.draws[d]['gen'] for d in ds}
        src = {x.src for x in gens}
        ok = src <= {('seeded', vkey(RS))}
        rep.check(key + ':seed', w, ok and len(gens) <= 1,
                  'draws come from %s' % ', '.join(sorted(map(repr, src))) if not ok else 'two generators start from the same seed: their draws are the same numbers')
    if not got:
        raise Missing('no way through make_correlated_data')


def alpha_max(api, rep, prog, m, multi):
    f = fn(m, 'compute_alpha_max')
    w = '%s compute_alpha_max' % FILE

    def body(I):
        X = I.wrap(mkarray('X', (n_, p_))[0])
        Y = I.wrap(mkarray('Y', (n_, T_) if multi else (n_,))[0])
        return I.call(f, [X, Y], {}, f.node)
    Xs, Ys = mkarray('X', (n_, p_))[0], mkarray('Y', (n_, T_) if multi else (n_,))[0]
    b = bvar(p_, 'j')

    def corr(t):
        a = bvar(n_, 'i')
        return sum_(a, n_, mul(Xs.at(a, b), Ys.at(a, t) if multi else Ys.at(a)))
    if multi:
        t = bvar(T_, 't')
        x = corr(t)
        el = fsqrt(sum_(t, T_, mul(x, x)))
    else:
        el = fabs(corr(None))
    for o in N.paths(prog, body):
        rep.fns |= {'%s::%s' % (FILE, x) for x in o.I.fns}
        pa = Path(o)
        if not pa.feasible():
            continue
        key = 'alpha_max:%s' % ('multi-task' if multi else 'single task')
        if o.kind == 'unknown':
            rep.und(key, w, o.val)
        elif o.kind == 'raise':
            rep.bad(key, w, 'ends in %r' % o.val)
        elif not isinstance(o.val, SV):
            (rep.bad if isinstance(o.val, NA) else rep.und)(key, w, 'returns %r' % (o.val,))
        else:
            e = pa.s(o.val.e)
            inits = [x.args[3] for x in walk(e) if x.op == 'maxr']
            ini = inits[0] if len(set(inits)) == 1 and (inits[0] is NINF or is_num(inits[0]) and val(inits[0]) <= 0) else NINF
            rep.res(key, w, equal(e, pa.s(div(red('maxr', b, p_, el, ini), n_)), pa.space))


def Y07(api, rep):
    prog, m = load(api)
    simulate(api, rep, prog, m, 'simulated coefficients', 'simulated')
    simulate(api, rep, prog, m, 'given coefficients of one task', 'given, one task')
    simulate(api, rep, prog, m, 'given coefficients', 'given')
    alpha_max(api, rep, prog, m, False)
    alpha_max(api, rep, prog, m, True)
