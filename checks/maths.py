"""M01-M07: closed forms of penalties, proximal operators, datafits, CSC/dense agreement, alpha_max."""
from api import *
from decide import *

Fr = Fraction


def R(name, **k):
    return sym(name, 'R', **k)


ALPHA, STEP, GAMMA, RATIO, X_ = (sym('alpha', 'R', nonneg=True), sym('step', 'R', nonneg=True), sym('gamma', 'R', nonneg=True),
                                 sym('ratio', 'R', nonneg=True), sym('x', 'R'))
ONE_MINUS = sub(ONE, RATIO)

PEN = {  # name -> (parameters, block?)
    'L1': ([ALPHA], False), 'L1PlusL2': ([ALPHA, RATIO], False), 'MCP': ([ALPHA, GAMMA], False), 'L05': ([ALPHA], False),
    'L21': ([ALPHA], True), 'BlockL1PlusL2': ([ALPHA, RATIO], True), 'BlockMCP': ([ALPHA, GAMMA], True),
}
KINDS = {ALPHA: 'pos', STEP: 'pos', GAMMA: 'ge1', RATIO: 'unit', X_: 'real'}


def prod_strata(*dims):
    """cartesian product of named substitutions"""
    out = [('generic', [])]
    for d in dims:
        out = [((n + ', ' + m) if m and n != 'generic' else (m or n), t + ([s] if s else [])) for n, t in out for m, s in [('', None)] + d]
    res = []
    for n, ts in out:
        if not ts:
            res.append((n, None))
        else:
            def f(e, ts=ts):
                for t in ts:
                    e = t(e)
                return e
            res.append((n, f))
    return res


def sub_stratum(name, s, v):
    return (name, lambda e: subst(e, {s: v}))


def param_dims(params):
    d = []
    if ALPHA in params:
        d.append([sub_stratum('alpha=0', ALPHA, ZERO)])
    if RATIO in params:
        d.append([sub_stratum('ratio=0', RATIO, ZERO), sub_stratum('ratio=1', RATIO, ONE)])
    if GAMMA in params:
        d.append([sub_stratum('gamma=1', GAMMA, ONE)])
    return d


def soft(x, t):
    return sel(flt(t, x), sub(x, t), sel(flt(x, neg(t)), add(x, t), ZERO))


def norm2(n, f):
    b = bvar(n, 't')
    return fsqrt(sum_(b, n, mul(f(b), f(b))))


def penalty(api, I, name):
    params, block = PEN[name]
    ty = api.ty(name)
    f, env = api.inherent(ty, 'new')
    v = api.call(I, (f, env), params)
    if not isinstance(v, Adt):
        raise Missing('%s::new returns %s' % (name, show_val(v)[:80]))
    return v, ty, params, block


def loc(f):
    return f['path']


# ------------------------------------------------------------------ M01 / M02
def prox_spec(name, x, step, norm=None):
    """(scalar) proximal operator; for block penalties x is one entry of the row and norm the row norm"""
    r = norm if norm is not None else fabs(x)
    if name in ('L1', 'L21'):
        t = mul(ALPHA, step)
        if norm is None:
            return soft(x, t)
        return sel(fle(r, t), ZERO, mul(sub(ONE, div(t, r)), x))
    if name in ('L1PlusL2', 'BlockL1PlusL2'):
        t = mul(RATIO, ALPHA, step)
        d = add(ONE, mul(step, ONE_MINUS, ALPHA))
        if norm is None:
            return div(soft(x, t), d)
        return sel(fle(r, t), ZERO, div(mul(sub(ONE, div(t, r)), x), d))
    if name in ('MCP', 'BlockMCP'):
        tau = mul(step, ALPHA)
        g = div(GAMMA, step)
        mid = div(mul(sub(ONE, div(tau, r)), x), sub(ONE, div(ONE, g)))
        return sel(fle(r, tau), ZERO, sel(flt(mul(ALPHA, GAMMA), r), x, mid))
    if name == 'L05':
        t = mul(num(Fr(3, 2)), powf(mul(ALPHA, step), num(Fr(2, 3))))
        arg = neg(mul(num(Fr(1, 4)), powf(num(3), num(Fr(3, 2))), ALPHA, step, powf(r, num(Fr(-3, 2)))))
        return sel(or_(feq(x, ZERO), flt(r, t)), ZERO,
                   mul(num(Fr(2, 3)), x, add(ONE, un('cos', mul(num(Fr(2, 3)), un('acos', arg))))))
    raise KeyError(name)


def M01(api, rep):
    for name in ('L1', 'L1PlusL2', 'MCP', 'L05'):
        I = api.interp()
        v, ty, params, _ = penalty(api, I, name)
        f, env = api.method('Penalty', (ty, F), 'prox')
        r = api.call(I, (f, env), [v, X_, STEP])
        spec = prox_spec(name, X_, STEP)
        sp = Space({s: KINDS[s] for s in params + [STEP, X_]},
                   strata=prod_strata([sub_stratum('x=0', X_, ZERO)], *param_dims(params)), n=300)
        rep.val('%s::prox' % name, loc(f), r, spec, sp)
        rep.analysed(I)


def row_input(name, T, **k):
    return mkarray(name, (T,), **k)


def zero_row(arr):
    """substitution: every element of the array symbol is zero"""
    def f(e):
        m = {x: ZERO for x in walk(e) if x.op == 'elem' and x.args[0] is arr}
        return replace(e, m) if m else e
    return f


PYTH = [(3, 4), (5, 12), (8, 15), (7, 24), (4, 3), (12, 5), (20, 21)]


def pyth_rows(*syms):
    """array contents whose rows have rational norms (rows of length 1 or 2)"""
    def mk_(s, rng):
        out = {}
        for a in syms:
            sc = {}

            def f(*idx, a=a, sc=sc, base=rng.randint(0, 1 << 30)):
                row = idx[:-1]
                r = random.Random('%s%s%s' % (base, a.args[0], tuple(int(i) for i in row)))
                p = r.choice(PYTH + [(0, 5), (5, 0), (0, -5)] if s.pool and s.ev(T_) > 1 else PYTH)
                k = Fr(r.randint(1, 90), r.randint(1, 20)) * r.choice(SCALES)
                if s.pool and r.random() < .3:
                    k = abs(r.choice(s.pool)) or k
                sg = [r.choice((1, -1)), r.choice((1, -1))]
                j = int(idx[-1])
                return p[j] * k * sg[j] / 5 if j < 2 else Fr(0)
            out[a] = f
        return out
    return mk_


T_ = sym('n_tasks', 'N', min=1)
P_ = sym('n_features', 'N', min=1)
N_ = sym('n_samples', 'N', min=1)


def M02(api, rep):
    for name in ('L21', 'BlockL1PlusL2', 'BlockMCP'):
        I = api.interp()
        v, ty, params, _ = penalty(api, I, name)
        f, env = api.method('MultiTaskPenalty', (ty, F), 'prox')
        row, rs = mkarray('row', (T_,))
        r = api.call(I, (f, env), [v, row, STEP])
        spec = mkarr((T_,), lambda t: prox_spec(name, elem(rs, t), STEP, norm2(T_, lambda b: elem(rs, b))))
        sp = Space({s: KINDS[s] for s in params + [STEP]}, dims={T_: [1, 2]},
                   strata=prod_strata([('zero row', zero_row(rs))], *param_dims(params)), arrs=pyth_rows(rs), n=300)
        rep.val('%s::prox' % name, loc(f), r, spec, sp)
        rep.analysed(I)


# ------------------------------------------------------------------ M03
M_ = sym('ws_size', 'N', min=1)


def dist_spec(name, w, g, wn=None, gcomb=None):
    """distance of -g to the subdifferential at w (scalar). Block: see block_dist"""
    zero = lambda t: fmax(ZERO, sub(fabs(g), t))
    if name == 'L1':
        return sel(feq(w, ZERO), zero(ALPHA), fabs(add(g, mul(ALPHA, fsign(w)))))
    if name == 'L1PlusL2':
        return sel(feq(w, ZERO), zero(mul(ALPHA, RATIO)), fabs(add(g, mul(ALPHA, RATIO, fsign(w)), mul(ALPHA, ONE_MINUS, w))))
    if name == 'MCP':
        return sel(feq(w, ZERO), zero(ALPHA), sel(flt(fabs(w), mul(ALPHA, GAMMA)),
                                                  fabs(add(g, mul(ALPHA, fsign(w)), neg(div(w, GAMMA)))), fabs(g)))
    if name == 'L05':
        return sel(feq(w, ZERO), ZERO, fabs(add(g, div(mul(ALPHA, fsign(w)), mul(num(2), fsqrt(fabs(w)))))))


def block_dist(name, T, W, G):
    wn = norm2(T, W)
    gn = norm2(T, G)
    if name == 'L21':
        z, c = ALPHA, div(ALPHA, wn)
    elif name == 'BlockL1PlusL2':
        z, c = mul(ALPHA, RATIO), add(div(mul(ALPHA, RATIO), wn), mul(ALPHA, ONE_MINUS))
    else:
        z, c = ALPHA, sub(div(ALPHA, wn), div(ONE, GAMMA))
    at0 = fmax(ZERO, sub(gn, z))
    inside = norm2(T, lambda t: add(G(t), mul(c, W(t))))
    if name == 'BlockMCP':
        inside = sel(flt(wn, mul(ALPHA, GAMMA)), inside, gn)
    return sel(feq(wn, ZERO), at0, inside)


def M03(api, rep):
    for name, (params, block) in PEN.items():
        I = api.interp()
        v, ty, params, _ = penalty(api, I, name)
        ws, wss = mkarray('ws', (M_,), esort='N', el=USIZE, emax=P_)
        ws = Arr(ws.shape, ws.bvs, elem(wss, *ws.bvs))
        if not block:
            f, env = api.method('Penalty', (ty, F), 'subdiff_distance')
            w, wsym = mkarray('w', (P_,))
            g, gsym = mkarray('grad', (M_,))
            spec_el = lambda j: dist_spec(name, elem(wsym, elem(wss, j)), elem(gsym, j))
            zero = ('w=0', zero_row(wsym))
            arrs = scal_arrays(wsym, gsym)
            gz = ('grad=0', zero_row(gsym))
        else:
            f, env = api.method('MultiTaskPenalty', (ty, F), 'subdiff_distance')
            w, wsym = mkarray('W', (P_, T_))
            g, gsym = mkarray('grad', (M_, T_))
            spec_el = lambda j: block_dist(name, T_, lambda t: elem(wsym, elem(wss, j), t), lambda t: elem(gsym, j, t))
            zero = ('W=0', zero_row(wsym))
            arrs = pyth_rows(wsym, gsym)
            gz = ('grad=0', zero_row(gsym))
        r = api.call(I, (f, env), [v, w, g, ws])
        b = bvar(M_, 'j')
        if not (isinstance(r, Tup) and len(r.items) == 2):
            rep.und('%s::subdiff_distance' % name, loc(f), 'result is not a pair: %s' % show_val(r)[:120])
            continue
        r = Tup([vmap(x, strip_int) if not isinstance(x, Adt) else x for x in r.items])
        init = red_init(r.items[1])
        spec = Tup([mkarr((M_,), spec_el), red('maxr', b, M_, spec_el(b), init)])
        pd = [d for d in param_dims(params)]
        sp = Space({s: KINDS[s] for s in params}, dims={T_: [1, 2], M_: [1, 2, 3], P_: [2, 3, 4]},
                   strata=prod_strata([zero], [gz], *pd), arrs=arrs, n=160 if block else 250)
        key = '%s::subdiff_distance' % name
        rep.regions(key, loc(f), r, spec, sp, {'zero': lambda n: 'w=0' in n.lower(),
                                               'nonzero' + const_tag(r): lambda n: 'w=0' not in n.lower()})
        rep.analysed(I)


def const_tag(r):
    """names the specific way a known finding fails: the function is the constant zero"""
    d = r.items[0]
    return '(constant 0)' if isinstance(d, Arr) and d.body is ZERO else ''


def red_init(e):
    """the neutral element a max over non-negative distances starts from: anything <= 0 gives the same maximum"""
    if isinstance(e, E):
        for x in walk(e):
            if x.op == 'maxr' and (x.args[3] is NINF or (is_num(x.args[3]) and val(x.args[3]) <= 0)):
                return x.args[3]
    return NINF


def scal_arrays(*syms):
    def mk_(s, rng):
        out = {}
        for a in syms:
            def f(*idx, a=a, base=rng.randint(0, 1 << 30)):
                r = random.Random('%s%s%s' % (base, a.args[0], tuple(int(i) for i in idx)))
                k = Fr(r.randint(1, 90), r.randint(1, 20)) * r.choice(SCALES)
                if s.pool and r.random() < .3:
                    k = abs(r.choice(s.pool)) or k
                return k * r.choice((1, -1))
            out[a] = f
        return out
    return mk_


# ------------------------------------------------------------------ M04
def value_spec(name, w):
    b = bvar(P_, 'j')
    if name in ('L1', 'L1PlusL2', 'MCP', 'L05'):
        wj = elem(w, b)
        a = fabs(wj)
        sq = mul(wj, wj)
    else:
        a = norm2(T_, lambda t: elem(w, b, t))
        c = bvar(T_, 't')
        sq = sum_(c, T_, mul(elem(w, b, c), elem(w, b, c)))
    if name in ('L1', 'L21'):
        return mul(ALPHA, sum_(b, P_, a))
    if name in ('L1PlusL2', 'BlockL1PlusL2'):
        return sum_(b, P_, add(mul(ALPHA, RATIO, a), mul(num(Fr(1, 2)), ALPHA, ONE_MINUS, sq)))
    if name in ('MCP', 'BlockMCP'):
        return sum_(b, P_, sel(flt(a, mul(ALPHA, GAMMA)), sub(mul(ALPHA, a), div(sq, mul(num(2), GAMMA))),
                               mul(num(Fr(1, 2)), GAMMA, ALPHA, ALPHA)))
    return mul(ALPHA, sum_(b, P_, fsqrt(a)))


def M04(api, rep):
    for name, (params, block) in PEN.items():
        I = api.interp()
        v, ty, params, _ = penalty(api, I, name)
        tr = 'MultiTaskPenalty' if block else 'Penalty'
        f, env = api.method(tr, (ty, F), 'value')
        w, wsym = mkarray('W' if block else 'w', (P_, T_) if block else (P_,))
        r = api.call(I, (f, env), [v, w])
        spec = value_spec(name, wsym)
        sp = Space({s: KINDS[s] for s in params}, dims={T_: [1, 2], P_: [1, 2, 3]},
                   strata=prod_strata([('w=0', zero_row(wsym))], *param_dims(params)),
                   arrs=(pyth_rows if block else scal_arrays)(wsym), n=200)
        rep.val('%s::value' % name, loc(f), r, spec, sp)
        rep.analysed(I)


# ------------------------------------------------------------------ datasets
Xd, Xsym = mkarray('X', (N_, P_))
NNZ = sym('nnz', 'N', min=1)
DATA, DATAs = mkarray('data', (NNZ,))
IND, INDs = mkarray('indices', (NNZ,), esort='N', emax=N_)
PTR, PTRs = mkarray('indptr', (add(P_, ONE),), esort='N', mono=True)
SYM_INFO[DATAs]['tied'] = SYM_INFO[Xsym]['tied'] = True      # two views of one matrix: no entry can be chosen alone


def csc_arrays(s, rng):
    """a valid CSC structure without duplicates and the dense matrix it represents"""
    n, p = int(s.ev(N_)), int(s.ev(P_))
    seed = rng.randint(0, 1 << 30)
    r = random.Random(seed)
    cols = []
    for j in range(p):
        rows = [i for i in range(n) if r.random() < .6]
        if r.random() < .5:
            # (the rows of a column come in any order)
            r.shuffle(rows)
        cols.append(rows)
    ptr = [0]
    ind = []
    val_ = []
    for rows in cols:
        for i in rows:
            ind.append(i)
            v = Fr(r.randint(1, 30), r.randint(1, 7)) * r.choice((1, -1))
            val_.append(r.choice(s.pool) if s.pool and r.random() < .5 else v)
        ptr.append(len(ind))
    s.scal[NNZ] = max(1, len(ind))
    dense = {}
    for j, rows in enumerate(cols):
        for k in range(ptr[j], ptr[j + 1]):
            dense[(ind[k], j)] = val_[k]

    def need(v, i):
        if not 0 <= i < len(v):
            raise Uneval('out of range')
        return v[i]
    out = {PTRs: lambda i: need(ptr, int(i)), INDs: lambda i: need(ind, int(i)), DATAs: lambda i: need(val_, int(i)),
           Xsym: lambda i, j: dense.get((int(i), int(j)), Fr(0))}
    return out


CSC = (DATAs, INDs, PTRs, Xsym, N_)


def csc_value(api):
    path = api.adt('CSCArray')
    a = api.p.adts[path]
    names = {fl['name'] for fl in a['variants'][0]['fields']}
    if names != {'data', 'indices', 'indptr'}:
        raise Missing('fields of CSCArray')
    f = {'data': DATA, 'indices': IND, 'indptr': PTR}
    return Adt(path, a['variants'][0]['name'], f, ('adt', path, (F,)))


def dataset(api, I, dm, targets):
    path = api.adt('DatasetBase')
    f = [x for x in api.p.impls if x['trait'] is None and x['self'][1:2] == (path,) and 'new' in x['itemd']]
    if not f:
        raise Missing('DatasetBase::new')
    fn = api.p.fns[f[0]['itemd']['new']]
    return api.call(I, (fn, {}), [dm, targets])


def dm_variants(api):
    yield 'dense', Xd, arr_ty(2)
    yield 'sparse', csc_value(api), ('adt', api.adt('CSCArray'), (F,))


YV, Ysym1 = mkarray('y', (N_,))
YM, Ysym2 = mkarray('Y', (N_, T_))


def prep(e):
    return densify(strip_int(e), CSC)


DFITS = {'Quadratic': ('Datafit', False), 'Logistic': ('Datafit', False), 'QuadraticMultiTask': ('MultiTaskDatafit', True)}


def datafit_run(api, name, kind, dm, dmty, method, targets=None, stale=False):
    """new -> initialize -> method; returns (Interp, fn, result, state)"""
    trait, multi = DFITS[name]
    I = api.interp()
    ty = api.ty(name)
    y, yt = (YM, arr_ty(2)) if multi else (YV, arr_ty(1))
    ds = dataset(api, I, dm, y)
    if stale:
        df = I.symbolic(ty, 'stale')
    else:
        df = api.call(I, api.inherent(ty, 'new'), [])
    c = api.cell(I, df, 'datafit')
    targs = (ty, F, dmty, yt)
    fi = api.method(trait, targs, 'initialize')
    api.call(I, fi, [c, ds])
    out = {'state': I.read(c), 'I': I, 'ds': ds, 'init_fn': fi[0]}
    if method == 'initialize':
        return out
    f, env = api.method(trait, targs, method)
    n_in = len(f['params'])
    if multi:
        xw, xws = mkarray('XW', (N_, T_))
    else:
        xw, xws = mkarray('Xw', (N_,))
    out['Xw'] = xws
    j = fresh('j', 'N', max=P_)
    out['j'] = j
    args = [I.read(c)]
    # roles by parameter type
    for p, t in list(zip(f['params'], f['inputs']))[1:]:
        st = strip_ref(t)
        if st[0] == 'adt' and st[1] == api.adt('DatasetBase'):
            args.append(ds)
        elif st == USIZE:
            args.append(j)
        elif arr_ndim(st) is not None:
            args.append(xw)
        else:
            raise Missing('parameters of %s::%s' % (trait, method))
    out['fn'] = f
    out['res'] = api.call(I, (f, env), args)
    return out


def nsum(n, f):
    b = bvar(n, 'i')
    return sum_(b, n, f(b))


def dspace(sparse, extra=None, n=60):
    return Space(extra or {}, dims={N_: [1, 2, 3], P_: [1, 2, 3], T_: [1, 2]}, arrs=csc_arrays, n=n)


def df_specs(name):
    """value, gradient_j(j) (or row), lipschitz(j)"""
    xs = sym('XW', 'A') if DFITS[name][1] else sym('Xw', 'A')
    X = lambda i, j: elem(Xsym, i, j)
    if name == 'Quadratic':
        y = lambda i: elem(Ysym1, i)
        xw = lambda i: elem(xs, i)
        return (div(nsum(N_, lambda i: powi(sub(y(i), xw(i)), num(2))), mul(num(2), N_)),
                lambda j: div(nsum(N_, lambda i: mul(X(i, j), sub(xw(i), y(i)))), N_),
                lambda j: div(nsum(N_, lambda i: mul(X(i, j), X(i, j))), N_))
    if name == 'Logistic':
        y = lambda i: elem(Ysym1, i)
        xw = lambda i: elem(xs, i)
        sig = lambda z: div(ONE, add(ONE, un('exp', neg(z))))
        return (div(nsum(N_, lambda i: un('ln', add(ONE, un('exp', neg(mul(y(i), xw(i))))))), N_),
                lambda j: div(nsum(N_, lambda i: neg(mul(X(i, j), y(i), sig(neg(mul(y(i), xw(i))))))), N_),
                lambda j: div(nsum(N_, lambda i: mul(X(i, j), X(i, j))), mul(num(4), N_)))
    y = lambda i, t: elem(Ysym2, i, t)
    xw = lambda i, t: elem(xs, i, t)
    return (div(nsum(N_, lambda i: nsum(T_, lambda t: powi(sub(y(i, t), xw(i, t)), num(2)))), mul(num(2), N_)),
            lambda j, t: div(nsum(N_, lambda i: mul(X(i, j), sub(xw(i, t), y(i, t)))), N_),
            lambda j: div(nsum(N_, lambda i: mul(X(i, j), X(i, j))), N_))


def S08_datafits(api, rep):
    """what a datafit reports after initialisation does not depend on what it held before"""
    for name, (trait, multi) in DFITS.items():
        for kind, dm, dmty in dm_variants(api):
            sp = dspace(kind == 'sparse')
            for method in ('value', 'gradient_j', 'full_grad', 'step_size'):
                new = datafit_run(api, name, kind, dm, dmty, method)
                old = datafit_run(api, name, kind, dm, dmty, method, stale=True)
                j = new['j']
                b = vmap(old['res'], lambda e: subst(prep(e), {old['j']: j}))
                rep.val('%s(%s)::%s after an earlier initialisation' % (name, kind, method), loc(old['init_fn']), b,
                        vmap(new['res'], prep), sp, idx=((j, P_),))
                rep.analysed(old['I'])


def M05_cases(api, rep, kinds, label):
    for name, (trait, multi) in DFITS.items():
        val_, grad, lip = df_specs(name)
        for kind, dm, dmty in dm_variants(api):
            if kind not in kinds:
                continue
            sp = dspace(kind == 'sparse')
            for method in ('value', 'gradient_j', 'full_grad', 'step_size'):
                tag = '%s(%s)::%s' % (name, kind, method)
                o = datafit_run(api, name, kind, dm, dmty, method)
                r = vmap(o['res'], prep)
                if method == 'value':
                    spec = val_
                    idx = ()
                elif method == 'gradient_j':
                    idx = ((o['j'], P_),)
                    spec = mkarr((T_,), lambda t: grad(o['j'], t)) if multi else grad(o['j'])
                elif method == 'full_grad':
                    idx = ()
                    spec = mkarr((P_, T_), grad) if multi else mkarr((P_,), grad)
                else:
                    idx = ()
                    spec = mkarr((P_,), lip)
                rep.val(tag, loc(o['fn']), r, spec, sp, idx=idx)
                rep.analysed(o['I'])


def M05(api, rep):
    M05_cases(api, rep, ('dense',), 'M05')


# ------------------------------------------------------------------ M06
def M06(api, rep):
    """both representations are compared with the same specification, so they agree with each other"""
    M05_cases(api, rep, ('sparse', 'dense'), 'M06')
    model_fits(api, rep)


def model_fits(api, rep, only=('n_features', 'update', 'extrapolated')):
    """every implementation of a design matrix: the model fit it computes or updates is the matrix times the coefficients"""
    for kind, dm, dmty in dm_variants(api):
        if 'n_features' in only:
            n_features_case(api, rep, kind, dm, dmty)
        if 'update' in only:
            update_cases(api, rep, kind, dm, dmty)
        if 'extrapolated' in only:
            extrapolated_cases(api, rep, kind, dm, dmty)


def n_features_case(api, rep, kind, dm, dmty):
    sp = dspace(kind == 'sparse', n=50)
    # n_features
    I = api.interp()
    f, env = api.method('DesignMatrix', (dmty,), 'n_features')
    r = api.call(I, (f, env), [dm])
    rep.val('DesignMatrix(%s)::n_features' % kind, loc(f), vmap(r, prep), P_, sp)


def update_cases(api, rep, kind, dm, dmty):
    sp = dspace(kind == 'sparse', n=50)
    j = fresh('j', 'N', max=P_)
    I = api.interp()
    f, env = api.method('DesignMatrix', (dmty,), 'update_model_fit')
    xw, xs = mkarray('Xw', (N_,))
    c = api.cell(I, xw)
    d = R('diff')
    api.call(I, (f, env), roles(api, f, dm, {1: c, 0: d, 'j': j}, I))
    spec = mkarr((N_,), lambda i: add(elem(xs, i), mul(d, elem(Xsym, i, j))))
    rep.val('DesignMatrix(%s)::update_model_fit' % kind, loc(f), vmap(I.read(c), prep), spec,
            sp.with_(scal={d: 'real'}), idx=((j, P_),))
    rep.analysed(I)
    I = api.interp()
    f, env = api.method('DesignMatrix', (dmty,), 'update_model_fit_multi_task')
    xw, xs = mkarray('XW', (N_, T_))
    c = api.cell(I, xw)
    dv, ds = mkarray('diff', (T_,))
    api.call(I, (f, env), roles(api, f, dm, {2: c, 1: dv, 'j': j}, I))
    spec = mkarr((N_, T_), lambda i, t: add(elem(xs, i, t), mul(elem(ds, t), elem(Xsym, i, j))))
    rep.val('DesignMatrix(%s)::update_model_fit_multi_task' % kind, loc(f), vmap(I.read(c), prep), spec, sp, idx=((j, P_),))
    rep.analysed(I)


def extrapolated_cases(api, rep, kind, dm, dmty):
    sp = dspace(kind == 'sparse', n=50)
    ws, wss = mkarray('ws', (M_,), esort='N', emax=P_)
    sp2 = sp.with_(dims={**sp.dims, M_: [1, 2, 3]})
    I = api.interp()
    f, env = api.method('DesignMatrix', (dmty,), 'compute_extrapolated_fit')
    w, wsym = mkarray('w', (P_,))
    r = api.call(I, (f, env), roles(api, f, dm, {'ws': ws, 1: w, 'n': [N_]}, I))
    spec = mkarr((N_,), lambda i: nsum(M_, lambda q: mul(elem(wsym, elem(wss, q)), elem(Xsym, i, elem(wss, q)))))
    rep.val('DesignMatrix(%s)::compute_extrapolated_fit' % kind, loc(f), vmap(r, prep), spec, sp2)
    rep.analysed(I)
    I = api.interp()
    f, env = api.method('DesignMatrix', (dmty,), 'compute_extrapolated_fit_multi_task')
    w, wsym = mkarray('W', (P_, T_))
    r = api.call(I, (f, env), roles(api, f, dm, {'ws': ws, 2: w, 'n': [N_, T_]}, I))
    spec = mkarr((N_, T_), lambda i, t: nsum(M_, lambda q: mul(elem(wsym, elem(wss, q), t), elem(Xsym, i, elem(wss, q)))))
    rep.val('DesignMatrix(%s)::compute_extrapolated_fit_multi_task' % kind, loc(f), vmap(r, prep), spec, sp2)
    rep.analysed(I)


def roles(api, f, dm, by, I):
    """arguments of a DesignMatrix method, chosen by parameter type: rank of the array, integer arrays = ws, usize in order"""
    args = [dm]
    ns = list(by.get('n', []))
    for p, t in list(zip(f['params'], f['inputs']))[1:]:
        st = strip_ref(t)
        nd = arr_ndim(st)
        if nd is not None:
            if is_int_ty(arr_elem_ty(st)):
                args.append(by['ws'])
            elif nd in by:
                args.append(by[nd])
            else:
                raise Missing('parameter of rank %s of %s' % (nd, f['path']))
        elif st == USIZE:
            if 'j' in by:
                args.append(by['j'])
            elif ns:
                args.append(ns.pop(0))
            else:
                raise Missing('parameters of %s' % f['path'])
        elif 0 in by:
            args.append(by[0])
        else:
            raise Missing('parameters of %s' % f['path'])
    return args


# ------------------------------------------------------------------ M07
def amax_spec(multi):
    b = bvar(P_, 'j')
    if multi:
        body = norm2(T_, lambda t: nsum(N_, lambda i: mul(elem(Xsym, i, b), elem(Ysym2, i, t))))
    else:
        body = fabs(nsum(N_, lambda i: mul(elem(Xsym, i, b), elem(Ysym1, i))))
    return b, body


def M07(api, rep):
    for fname, kind, multi in (('compute_alpha_max', 'dense', False), ('compute_alpha_max_sparse', 'sparse', False),
                               ('compute_alpha_max_mtl', 'dense', True)):
        f = api.fn(fname)
        I = api.interp()
        dm = Xd if kind == 'dense' else csc_value(api)
        args = []
        for p, t in zip(f['params'], f['inputs']):
            st = strip_ref(t)
            nd = arr_ndim(st)
            if st[0] == 'adt' and st[1].endswith('CSCArray'):
                args.append(dm)
            elif nd == 2 and not (multi and len(args) == 1):
                args.append(dm)
            elif nd == 1:
                args.append(YV)
            elif nd == 2:
                args.append(YM)
            elif st == ('param', 'F'):
                args.append(R('unused'))
            else:
                raise Missing('parameters of %s' % f['path'])
        r = api.call(I, f, args)
        b, body = amax_spec(multi)
        if isinstance(r, E):
            r = prep(r)
            spec = div(red('maxr', b, P_, body, red_init(r)), N_)
        else:
            spec = div(red('maxr', b, P_, body, NINF), N_)
        rep.val(fname, loc(f), r, spec, dspace(kind == 'sparse', n=60))
        rep.analysed(I)
