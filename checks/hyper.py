"""H01, H02: hyperparameters from the builders through validation into the solvers."""
import itertools
import math
from fractions import Fraction
from api import *
from decide import *
import solver as SV

ROLE = {'alpha': 'R', 'gamma': 'R', 'l1_ratio': 'R', 'max_iterations': 'N', 'max_epochs': 'N', 'ws_start_size': 'N',
        'tolerance': 'R', 'K': 'N', 'use_acceleration': 'B', 'verbose': 'B'}
COMMON = ['max_iterations', 'max_epochs', 'ws_start_size', 'tolerance', 'K', 'use_acceleration', 'verbose']
POS = ['ws_start_size', 'max_iterations', 'max_epochs', 'tolerance', 'K', 'use_acceleration', 'verbose']   # after dataset, datafit, penalty
EST = {  # estimator: penalty, its parameters in order, multi-task?
    'Lasso': ('L1', ['alpha'], False), 'MultiTaskLasso': ('L21', ['alpha'], True),
    'MCPEstimator': ('MCP', ['alpha', 'gamma'], False), 'BlockMCPEstimator': ('BlockMCP', ['alpha', 'gamma'], True),
    'ElasticNet': ('L1PlusL2', ['alpha', 'l1_ratio'], False), 'MultiTaskElasticNet': ('BlockL1PlusL2', ['alpha', 'l1_ratio'], True)}
ERROR = {'alpha': 'InvalidRegularization', 'gamma': 'InvalidGamma', 'l1_ratio': 'InvalidL1Ratio', 'tolerance': 'InvalidTolerance',
         'K': 'InvalidK', 'ws_start_size': 'InvalidWSSize'}
INTS = [0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 20, 49, 50, 51, 99, 100, 101, 999, 1000, 1001, 5000, 10 ** 6]


def rs(name):
    return sym('h:' + name, ROLE[name])


def build(api, I, ty, tag, leaves):
    """an arbitrary value of a configuration type: one fresh symbol per scalar leaf"""
    if ty[0] == 'param':
        s = sym(tag, 'R')
    elif ty == ('prim', 'bool'):
        s = sym(tag, 'B')
    elif is_int_ty(ty):
        s = sym(tag, 'N' if ty[1][0] == 'u' else 'Z')
    elif ty[0] == 'prim':
        s = sym(tag, 'R')
    elif ty[0] == 'tuple':
        return Tup([build(api, I, t, '%s.%d' % (tag, i), leaves) for i, t in enumerate(ty[1])])
    elif ty[0] == 'adt' and ty[1] in api.p.adts and api.p.adts[ty[1]]['kind'] == 'Struct':
        a = api.p.adts[ty[1]]
        env = I.adt_env(ty)
        return Adt(ty[1], a['variants'][0]['name'],
                   {f['name']: build(api, I, api.p.tsubst(f['ty'], env), tag + '.' + f['name'], leaves) for f in a['variants'][0]['fields']}, ty)
    else:
        return I.opaque(sym(tag, 'O'), ty)
    TYOF.setdefault(s, ty)
    leaves.append(s)
    return s


def strip(t):
    while t[0] == 'ref':
        t = t[2]
    return t


def params_type(api, est):
    """what Estimator::params() returns"""
    f, _ = api.inherent(api.ty(est), 'params')
    return strip(f['output'])


def setters(api, ty):
    """role -> builder method (self, value) -> Self"""
    out = {}
    for i in api.p.impls:
        if i['trait'] is None and i['self'][:2] == ty[:2]:
            for n, fid in i['items']:
                f = api.p.fns[fid]
                if n in ROLE and len(f['inputs']) == 2 and f['inputs'][0][:2] == ty[:2] and f['output'] and f['output'][:2] == ty[:2]:
                    env = {}
                    api.p.unify(i['self'], ty, env, set(i['generics']))
                    out[n] = (f, env)
    return out


DENSE = ('adt', 'ndarray::ArrayBase', (('param', 'S'), ('adt', 'ndarray::dimension::dim::Dim', (('array', USIZE, '2'),))))


class Run:
    """one interpretation of `fit` / `solve` with the two solver entry points as recorders"""

    def __init__(self, api):
        self.api = api
        self.I = api.interp()
        self.calls = []
        for nm in ('coordinate_descent', 'block_coordinate_descent'):
            self.I.barriers[api.fn(nm)['path']] = self.hook

    def hook(self, I, path, args, targs, ret):
        v = [I.read(a) if isinstance(a, MutRef) else a for a in args]
        s = sym('solution%d' % len(self.calls), 'A', esort='R', shape=None)
        n = 2 if 'block' in path.split('::')[-1] else 1
        sh = tuple(sym('sol:d%d' % k, 'N') for k in range(n))
        SYM_INFO[s]['shape'] = sh
        SYM_INFO[s]['esort'] = 'R'
        self.calls.append((path, list(I.pc), v, s))
        bv = [bvar(d, 'i') for d in sh]
        return Arr(sh, bv, elem(s, *bv))

    def dataset(self, dm, tg):
        dpath = self.api.adt('DatasetBase')
        return Adt(dpath, self.api.p.adts[dpath]['variants'][0]['name'], {'design_matrix': dm, 'targets': tg},
                   ('adt', dpath, (('param', 'DM'), ('param', 'T'))))


def hspace(syms, n=120):
    sc, dm = {}, {}
    for s in syms:
        k = s.args[1]
        if k == 'R':
            sc[s] = ['x'] and (lambda rng: Fraction(rng.choice([0, 1, 1, 2, 3, 5, 7, 11, 50, 97]), rng.choice([1, 2, 3, 7, 10, 10 ** 4, 10 ** 7, 10 ** 9])))
        elif k == 'N':
            dm[s] = INTS
        elif k == 'B':
            sc[s] = [True, False]
    return Space(scal=sc, dims=dm, n=n)


def scalar_eq(a, b, sp):
    a, b = canon(reify(a)), canon(reify(b))
    if a is b:
        return Res('held', 1)
    bad = [x for x in walk(a) if x.op in ('top',)]
    if bad:
        return Res('undecided', 0, 'unmodelled: %s' % show(a)[:200])
    if b.op == 'sym' and b.args[1] == 'B' or is_bool(a) or is_bool(b):
        a, b = sel(a, ONE, ZERO), sel(b, ONE, ZERO)
    return equal(a, b, sp)


def is_bool(e):
    return e.op in ('not', 'and', 'or', 'lt', 'flt', 'fle', 'feq', 'eq', 'bool') or (e.op == 'sym' and e.args[1] == 'B')


def fit_once(api, est, dm, make, rep=None):
    """-> Run, value returned by fit, syms"""
    pen, pars, multi = EST[est]
    ty = params_type(api, est)
    r = Run(api)
    leaves = []
    p = build(api, r.I, ty, 'p', leaves)
    p = make(r, p)
    dmty = DENSE if dm == 'dense' else api.ty('CSCArray')
    eerr = ('adt', api.adt('EstimatorError'), ())
    f = api.method('Fit', (strip(ty), dmty, ('param', 'T'), eerr), 'fit')
    ds = r.dataset(sym('design_matrix', 'O'), sym('targets', 'O'))
    out = api.call(r.I, f, [p, ds])
    r.ds, r.out, r.leaves, r.f = ds, out, leaves, f[0]
    if rep is not None:
        rep.analysed(r.I)
    return r


def roles_of(api, r, est, call):
    """the 7 common roles and the penalty of one recorded solver call"""
    path, pc, v, s = call
    d = dict(zip(POS, v[3:10]))
    d['penalty'], d['datafit'], d['dataset'] = v[2], v[1], v[0]
    return d


def ret_value(out, s, I):
    """is the fitted object's single array field the solver's result, on every Ok path?"""
    paths = []

    def go(v, pc):
        if isinstance(v, Cond):
            go(v.a, pc + [v.c])
            go(v.b, pc + [not_(v.c)])
        elif isinstance(v, Adt):
            paths.append((pc, v))
        else:
            paths.append((pc, v))
    go(out, [])
    return paths


def H01_estimator(api, rep, est, dm):
    pen, pars, multi = EST[est]
    key = '%s/%s' % (est, dm)
    ty = strip(params_type(api, est))
    st = setters(api, ty)
    want = pars + COMMON
    for n in want:
        if n not in st:
            raise Missing('builder %s::%s' % (tname(ty), n))

    def all_set(r, p):
        for n in want:
            p = api.call(r.I, st[n], [p, rs(n)])
        return p
    r = fit_once(api, est, dm, all_set, rep)
    where = r.f['path']
    if not r.calls:
        rep.und(key + ':solver', where, 'no call of a solver is seen (%s)' % (r.I.unknown[:2],))
        return
    solver = api.fn('block_coordinate_descent' if multi else 'coordinate_descent')['path']
    base = []
    for k, call in enumerate(r.calls):
        ck = key if len(r.calls) == 1 else '%s(call %d)' % (key, k)
        path, pc, v, s = call
        if path != solver:
            rep.bad(ck + ':solver', where, 'calls %s instead of %s' % (path, solver))
            continue
        syms = [rs(n) for n in want] + r.leaves
        sp = hspace(syms).with_(cons=pc)
        d = roles_of(api, r, est, call)
        base.append((pc, d))
        for n in COMMON:
            rep.res('%s:%s' % (ck, n), where, scalar_eq(d[n], rs(n), sp))
        a, b = canon(reify(d['dataset'], r.I)), canon(reify(r.ds, r.I))
        if a is b:
            rep.ok(ck + ':dataset', where)
        elif d['dataset'].__class__ is Adt and any(canon(reify(x, r.I)).op == 'sym' for x in d['dataset'].fields.values()):
            rep.bad(ck + ':dataset', where, 'the solver gets %s' % show(a)[:200])
        else:
            rep.und(ck + ':dataset', where, show(a)[:300])
        same_penalty(api, rep, ck, where, r, d['penalty'], pen, pars, sp)
        df = d['datafit']
        wantdf = 'QuadraticMultiTask' if multi else 'Quadratic'
        if isinstance(df, Adt):
            rep.check(ck + ':datafit', where, df.path == api.adt(wantdf), 'the datafit is %s, documented is %s' % (df.path, wantdf))
        else:
            rep.und(ck + ':datafit', where, show_val(df)[:200])
    # what fit returns
    sols = {c[3]: c for c in r.calls}
    for k, (pc, v) in enumerate(ret_value(r.out, None, r.I)):
        if isinstance(v, Adt) and v.variant == 'Err':
            continue
        o = v.fields.get('0') if isinstance(v, Adt) else None
        fs = [x for x in o.fields.values() if isinstance(x, Arr)] if isinstance(o, Adt) else []
        if not isinstance(o, Adt) or len(fs) != 1:
            rep.und('%s:result%d' % (key, k), where, show_val(v)[:200])
            continue
        b = fs[0]
        hit = isinstance(b.body, E) and b.body.op == 'elem' and b.body.args[0] in sols and tuple(b.body.args[1:]) == tuple(b.bvs)
        if hit:
            rep.ok('%s:result%d' % (key, k), where)
        elif isinstance(b.body, E) and not [x for x in walk(b.body) if x.op == 'top'] and len(sols) == 1:
            s = list(sols)[0]
            for p_, q in equal_val(b, Arr(b.shape, b.bvs, elem(s, *b.bvs)), hspace([rs(n) for n in want]).with_(cons=pc)):
                rep.res('%s:result%d%s' % (key, k, p_), where, q)
        else:
            rep.und('%s:result%d' % (key, k), where, show_val(b)[:200])
    # one setter changes one role only, from any configuration
    free_ = fit_once(api, est, dm, lambda r_, p: p)
    for n in want:
        new = sym('new:' + n, ROLE[n])
        r2 = fit_once(api, est, dm, lambda r_, p, n=n: api.call(r_.I, st[n], [p, new]))
        kk = '%s:only %s' % (key, n)
        if len(r2.calls) != len(free_.calls):
            rep.und(kk, where, 'different numbers of solver calls')
            continue
        for c0, c1 in zip(free_.calls, r2.calls):
            sp = hspace(list(dict.fromkeys(free_.leaves + r2.leaves + [new]))).with_(cons=c1[1])
            d0, d1 = roles_of(api, free_, est, c0), roles_of(api, r2, est, c1)
            worst = Res('held', 0)
            for m in COMMON:
                if m == n:
                    continue
                q = scalar_eq(d1[m], d0[m], sp)
                if q.status != 'held':
                    q.detail = 'setting %s changes %s: %s' % (n, m, q.detail)
                    worst = q if worst.status != 'violated' else worst
                else:
                    worst.cells += q.cells
            if n not in pars:
                for p_, q in equal_val(d1['penalty'], d0['penalty'], sp):
                    if q.status != 'held':
                        q.detail = 'setting %s changes the penalty%s: %s' % (n, p_, q.detail)
                        worst = q if worst.status != 'violated' else worst
            else:
                # the other parameters of the penalty, through its fields of the base run
                a0, a1 = d0['penalty'], d1['penalty']
                if isinstance(a0, Adt) and isinstance(a1, Adt) and a0.path == a1.path:
                    mine = penalty_fields(api, r.I, pen, pars, n)
                    for fl in a0.fields:
                        if fl in mine:
                            continue
                        for p_, q in equal_val(a1.fields[fl], a0.fields[fl], sp):
                            if q.status != 'held':
                                q.detail = 'setting %s changes %s of the penalty: %s' % (n, fl, q.detail)
                                worst = q if worst.status != 'violated' else worst
            rep.res(kk, where, worst)


def penalty_fields(api, I, pen, pars, n):
    """the fields of the penalty that depend on parameter n"""
    f, env = api.inherent(api.ty(pen), 'new')
    v = api.call(api.interp(), (f, env), [rs(x) for x in pars])
    if not isinstance(v, Adt):
        return set()
    return {k for k, x in v.fields.items() if rs(n) in set(walk(reify(x)))}


def same_penalty(api, rep, key, where, r, got, pen, pars, sp):
    f, env = api.inherent(api.ty(pen), 'new')
    want = api.call(r.I, (f, env), [rs(n) for n in pars])
    if isinstance(got, Adt) and got.path == want.path:
        for p_, q in equal_val(got, want, sp):
            rep.res('%s:penalty%s' % (key, p_), where, q)
        return
    if not isinstance(got, Adt):
        rep.und(key + ':penalty', where, show_val(got)[:200])
        return
    # another penalty type: do its values differ?
    multi = any(i['trait'] == api.trait('MultiTaskPenalty') and i['self'][1] == want.path for i in api.p.impls if i['self'][0] == 'adt')
    tr = 'MultiTaskPenalty' if multi else 'Penalty'
    n, T = sym('h:n', 'N', min=1), sym('h:T', 'N', min=1)
    sh = (n, T) if multi else (n,)
    w, ws = mkarray('h:w', sh)
    try:
        a = api.call(r.I, api.method(tr, (('adt', got.path, (F,)), F), 'value'), [got, w])
        b = api.call(r.I, api.method(tr, (('adt', want.path, (F,)), F), 'value'), [want, w])
    except Missing as ex:
        rep.und(key + ':penalty', where, str(ex))
        return
    q = equal(canon(reify(a)), canon(reify(b)), sp)
    if q.status == 'violated':
        rep.bad(key + ':penalty', where, 'the penalty is %s, documented is %s; values differ: %s' % (got.path, pen, q.detail))
    else:
        rep.und(key + ':penalty', where, 'another penalty type, %s' % got.path)


def H01_solver(api, rep, multi):
    """the generic Solver"""
    key = 'Solver/' + ('multi' if multi else 'single')
    ty = api.ty('Solver')
    st = setters(api, ty)
    for n in COMMON:
        if n not in st:
            raise Missing('builder Solver::%s' % n)
    tr, m = ('BCDSolver', 'solve_multi_task') if multi else ('CDSolver', 'solve')
    imp = [i for i in api.p.trait_impls(api.trait(tr)) if i['self'][0] == 'adt' and i['self'][1] == ty[1]]
    if len(imp) != 1 or m not in imp[0]['itemd']:
        raise Missing('impl %s for Solver' % tr)
    f = api.p.fns[imp[0]['itemd'][m]]

    def once(make):
        r = Run(api)
        r.leaves = []
        p = make(r, build(api, r.I, ty, 'p', r.leaves))
        r.ds = r.dataset(sym('design_matrix', 'O'), sym('targets', 'O'))
        df = MutRef(r.I.new_cell(sym('datafit', 'O'), 'datafit'))
        r.out = api.call(r.I, (f, {}), [p, r.ds, df, sym('penalty', 'O')])
        return r

    def all_set(r, p):
        for n in COMMON:
            p = api.call(r.I, st[n], [p, rs(n)])
        return p
    r = once(all_set)
    rep.analysed(r.I)
    where = f['path']
    if not r.calls:
        rep.und(key + ':solver', where, 'no call of a solver is seen')
        return
    for k, (path, pc, v, s) in enumerate(r.calls):
        ck = key if len(r.calls) == 1 else '%s(call %d)' % (key, k)
        sp = hspace([rs(n) for n in COMMON] + r.leaves).with_(cons=pc)
        d = dict(zip(POS, v[3:10]))
        for n in COMMON:
            rep.res('%s:%s' % (ck, n), where, scalar_eq(d[n], rs(n), sp))
        for nm, got, want in (('dataset', v[0], r.ds), ('datafit', v[1], sym('datafit', 'O')), ('penalty', v[2], sym('penalty', 'O'))):
            a, b = canon(reify(got, r.I)), canon(reify(want, r.I))
            rep.add('%s:%s' % (ck, nm), where, 'held' if a is b else 'undecided', '' if a is b else show(a)[:200], 1)
    for k, (pc, v) in enumerate(ret_value(r.out, None, r.I)):
        b = v.fields.get('0') if isinstance(v, Adt) and v.variant == 'Ok' else None
        hit = isinstance(b, Arr) and isinstance(b.body, E) and b.body.op == 'elem' and b.body.args[0] in {c[3] for c in r.calls} and tuple(b.body.args[1:]) == tuple(b.bvs)
        rep.add('%s:result%d' % (key, k), where, 'held' if hit else 'undecided', '' if hit else show_val(v)[:200], 1)
    free_ = once(lambda r_, p: p)
    for n in COMMON:
        new = sym('new:' + n, ROLE[n])
        r2 = once(lambda r_, p, n=n: api.call(r_.I, st[n], [p, new]))
        worst = Res('held', 0)
        if len(r2.calls) != len(free_.calls):
            worst = Res('undecided', 0, 'different numbers of solver calls')
        for c0, c1 in zip(free_.calls, r2.calls):
            sp = hspace(list(dict.fromkeys(free_.leaves + r2.leaves + [new]))).with_(cons=c1[1])
            d0, d1 = dict(zip(POS, c0[2][3:10])), dict(zip(POS, c1[2][3:10]))
            for m_ in COMMON:
                if m_ != n:
                    q = scalar_eq(d1[m_], d0[m_], sp)
                    if q.status != 'held' and worst.status != 'violated':
                        q.detail = 'setting %s changes %s: %s' % (n, m_, q.detail)
                        worst = q
                    elif q.status == 'held':
                        worst.cells += q.cells
        rep.res('%s:only %s' % (key, n), where, worst)


def H01_budgets(api, rep):
    """inside the solvers the budgets bound the loops as they are, not a smaller amount"""
    def f(C, rep):
        for k, (nm, s) in enumerate((('iterations', SV.MAXIT), ('passes', SV.MAXEP))):
            rec = C.S[k].rec
            key = '%s:%s use the whole budget' % (C.tag, nm)
            if rec.n is None:
                rep.und(key, C.loc, 'the loop has no bound of its own')
                continue
            n = canon(C.nm(rec.n))
            if expand(sub(n, s)) is ZERO:
                rep.ok(key, C.loc)
                continue
            sp = C.space()
            sp.scal[s] = INTS
            bad, hit = SV.refute(sp, [], ile(s, n))
            if bad is not None and not SV.foreign_state(C, [], n):
                rep.bad(key, C.loc, 'the loop runs at most %s times, the budget is %s (%s)' % (show(n)[:160], show(s), bad))
            else:
                rep.und(key, C.loc, 'the bound is %s' % show(n)[:200])
        # an iteration that starts below the tolerance ends the fit: the tolerance is not replaced by a smaller one
        key = '%s:the tolerance itself ends the fit' % C.tag
        w, x = C.nm(C.S[0].w['phi']), C.nm(C.S[0].x['phi'])
        ex = SV.exits_of(C, 0)
        V = canon(C.V(w, x))
        if not ex and C.S[0].rec.n is not None and not C.S[0].rec.exits:
            rep.bad(key, C.loc, 'the outer loop has no exit other than its bound: the tolerance never ends the iterations')
        elif any(SV.foreign_state(C, [c], w, x) for c, *_ in ex) or not ex:
            rep.und(key, C.loc, 'the exits read other loop state')
        elif any(SV.lit_implies(l, 'le', V, SV.TOL, C.space()) and len(SV.conj(d)) == 1 for c, *_ in ex for d in SV.disj(c) for l in SV.conj(d)):
            rep.ok(key, C.loc)
        else:
            bad, hit = SV.refute(C.space(), [not_(c) for c, *_ in ex], not_(flt(V, SV.TOL)))
            if bad is not None:
                rep.bad(key, C.loc, 'the iterations go on although the largest violation is below the tolerance (%s)' % bad)
            else:
                rep.und(key, C.loc, 'exits %s' % [show(c)[:160] for c, *_ in ex])
    SV.both(api, rep, f)


def H01(api, rep):
    for est in EST:
        for dm in ('dense', 'csc'):
            H01_estimator(api, rep, est, dm)
    for multi in (False, True):
        H01_solver(api, rep, multi)
    H01_budgets(api, rep)


# ------------------------------------------------------------------ H02
NANF = float('nan')


class NotScalar(Exception):
    pass


def fev(e, env):
    """value of a scalar expression over hyperparameters, in IEEE comparisons"""
    o = e.op
    a = e.args
    if e in env:
        return env[e]
    if o == 'num':
        return float(a[0]) if a[0].denominator != 1 else (float(a[0]) if abs(a[0]) > 2 ** 60 else int(a[0]))
    if o == 'bool':
        return a[0]
    if o == 'inf':
        return math.inf
    if o == 'ninf':
        return -math.inf
    if o == 'nan':
        return NANF
    if o == 'sym' and str(a[0]).startswith('const:'):
        return {'const:epsilon': 2.0 ** -52, 'const:min_positive_value': 2.0 ** -1022, 'const:max_value': 1.7e308, 'const:min_value': -1.7e308,
                'const:pi': math.pi, 'const:e': math.e}.get(a[0]) or raise_(NotScalar(show(e)))
    if o == 'not':
        return not fev(a[0], env)
    if o == 'and':
        return all(fev(x, env) for x in a)
    if o == 'or':
        return any(fev(x, env) for x in a)
    if o == 'sel':
        return fev(a[1] if fev(a[0], env) else a[2], env)
    if o in ('lt', 'flt'):
        return fev(a[0], env) < fev(a[1], env)
    if o == 'fle':
        return fev(a[0], env) <= fev(a[1], env)
    if o in ('eq', 'feq'):
        return fev(a[0], env) == fev(a[1], env)
    if o == 'add':
        return sum(fev(x, env) for x in a)
    if o == 'mul':
        r = 1
        for x in a:
            r = r * fev(x, env)
        return r
    if o == 'abs':
        return abs(fev(a[0], env))
    if o in ('max', 'imax'):
        return max(fev(x, env) for x in a)
    if o in ('min', 'imin'):
        return min(fev(x, env) for x in a)
    if o == 'div':
        y = fev(a[1], env)
        if y == 0:
            raise NotScalar('division by zero')
        return fev(a[0], env) / y
    if o == 'powf' and a[1].op == 'num':
        return fev(a[0], env) ** a[1].args[0]
    if o == 'int':
        return fev(a[0], env)
    raise NotScalar(show(e)[:120])


def raise_(x):
    raise x


VALID = {'alpha': lambda v: v >= 0, 'tolerance': lambda v: v >= 0, 'l1_ratio': lambda v: 0 <= v <= 1, 'gamma': lambda v: v >= 1,
         'K': lambda v: v >= 1, 'ws_start_size': lambda v: v >= 1}


def cells_of(conds, roles):
    """per role: representatives of every cell of its comparisons with constants, merged by the outcome of all atoms"""
    atoms = set()
    joint = False
    for c in conds:
        for x in walk(c):
            if x.op in ('lt', 'flt', 'fle', 'eq', 'feq'):
                atoms.add(x)
    per = {}
    for r in roles:
        s = rs(r)
        mine = [x for x in atoms if s in set(walk(x))]
        consts = {Fraction(0), Fraction(1)}
        for x in mine:
            others = {y for y in walk(x) if y.op == 'sym' and y is not s and not str(y.args[0]).startswith('const:')}
            if others:
                joint = True
            for y in walk(x):
                if y.op == 'num':
                    consts |= {y.args[0], -y.args[0]}
                if y.op == 'sym' and y.args[0] == 'const:epsilon':
                    consts |= {Fraction(1, 2 ** 52), -Fraction(1, 2 ** 52), 1 - Fraction(1, 2 ** 52), 1 + Fraction(1, 2 ** 52)}
        cs = sorted(consts)
        if ROLE[r] == 'R':
            pts = [cs[0] - 1, cs[0] - 1000] + cs + [(a + b) / 2 for a, b in zip(cs, cs[1:])] + [cs[-1] + 1, cs[-1] * 1000 + 1]
            vals = [float(x) for x in pts] + [NANF, math.inf, -math.inf]
        elif ROLE[r] == 'N':
            vals = sorted({max(0, math.floor(x) + d) for x in cs for d in (-1, 0, 1, 2)} | {0, 1, 2, 3, 10, 10 ** 6})
        else:
            vals = [True, False]
        per[r] = (vals, mine)
    used = set()
    for c in conds:
        used |= set(walk(c))
    if not joint:
        for r, (vals, mine) in list(per.items()):
            if ROLE[r] == 'B':
                if rs(r) not in used:
                    per[r] = (vals[:1], mine)
                continue
            seen = {}
            for v in vals:
                try:
                    k = tuple(bool(fev(x, {rs(r): v})) for x in mine) + (VALID.get(r, lambda z: True)(v),)
                except NotScalar:
                    k = ('?', v)
                seen.setdefault(k, v)
            per[r] = (list(seen.values()), mine)
    return {r: v[0] for r, v in per.items()}, joint


def paths_of(v):
    out = []

    def go(v, pc):
        if isinstance(v, Cond):
            go(v.a, pc + [v.c])
            go(v.b, pc + [not_(v.c)])
        elif isinstance(v, E) and v.op == 'sel':
            go(v.args[1], pc + [v.args[0]])
            go(v.args[2], pc + [not_(v.args[0])])
        else:
            out.append((pc, v))
    go(v, [])
    return out


def leaf(v, env):
    """the alternative of a gated value at one cell"""
    while True:
        if isinstance(v, Cond):
            v = v.a if fev(v.c, env) else v.b
        elif isinstance(v, E) and v.op == 'sel':
            v = v.args[1] if fev(v.args[0], env) else v.args[2]
        else:
            return v


def conds_of(v, out):
    if isinstance(v, Cond):
        out.append(v.c)
        conds_of(v.a, out)
        conds_of(v.b, out)
    elif isinstance(v, Adt):
        for x in v.fields.values():
            conds_of(x, out)
    elif isinstance(v, Tup):
        for x in v.items:
            conds_of(x, out)
    elif isinstance(v, E):
        for x in walk(v):
            if x.op == 'sel':
                out.append(x.args[0])
    return out


def show_cell(env, roles):
    return ', '.join('%s=%s' % (r, env[rs(r)]) for r in roles)


def outcome(api, rep, key, where, out, roles, checked=None, calls=()):
    """Err exactly on the invalid cells, with an offending hyperparameter and its value"""
    conds = conds_of(out, [])
    for c in calls:
        conds += list(c[1])
    cells, joint = cells_of(conds, roles)
    total = 1
    for v in cells.values():
        total *= len(v)
    names = list(cells)
    if total <= 40000:
        combos = itertools.product(*[cells[n] for n in names])
    else:
        base = {n: next(v for v in cells[n] if VALID.get(n, lambda z: True)(v)) for n in names}

        def pairs():
            for a, b in itertools.combinations(names, 2):
                for x in cells[a]:
                    for y in cells[b]:
                        yield tuple({**base, a: x, b: y}[n] for n in names)
        combos = pairs()
    acc = rej = err = run = None
    n = 0
    try:
        for combo in combos:
            env = {rs(r): v for r, v in zip(names, combo)}
            n += 1
            bad = [r for r in names if r in VALID and not VALID[r](env[rs(r)])]
            v = leaf(out, env)
            if not isinstance(v, Adt) or v.variant not in ('Ok', 'Err'):
                rep.und(key, where, 'result is %s' % show_val(v)[:200])
                return
            if bad and v.variant == 'Ok' and acc is None:
                acc = 'accepted although %s is invalid: %s' % (bad[0], show_cell(env, roles))
            if not bad and v.variant == 'Err' and rej is None:
                rej = 'rejected although every hyperparameter is valid: %s' % show_cell(env, roles)
            for c in calls:
                if bad and run is None and all(fev(x, env) for x in c[1]):
                    run = 'the optimisation runs although %s is invalid: %s' % (bad[0], show_cell(env, roles))
            if v.variant == 'Err' and bad and err is None:
                x = leaf(v.fields['0'], env)
                if not isinstance(x, Adt):
                    rep.und(key + ':error', where, show_val(x)[:200])
                    err = False
                    continue
                hit = [r for r in bad if ERROR[r] == x.variant]
                pl = leaf(x.fields.get('0'), env) if x.fields else None
                if not hit:
                    err = 'the error is %s, invalid is %s (%s)' % (x.variant, ', '.join(bad), show_cell(env, roles))
                elif pl is not None:
                    got = fev(pl, env) if isinstance(pl, E) else None
                    want = env[rs(hit[0])]
                    if got is not None and not (got == want or (got != got and want != want)):
                        err = 'the error %s carries %s instead of %s' % (x.variant, got, want)
    except NotScalar as ex:
        rep.und(key, where, 'validation is not a comparison of hyperparameters with constants: %s' % ex)
        return
    for nm, b in (('accepts only valid', acc), ('rejects only invalid', rej), ('no run on invalid', run), ('error', err)):
        if b is False or (nm == 'no run on invalid' and not calls):
            continue
        rep.add('%s:%s' % (key, nm), where, 'violated' if b else 'held', b or '', n)
    rep.count('hyperparameter cells', n)


def H02(api, rep):
    for est, (pen, pars, multi) in EST.items():
        ty = strip(params_type(api, est))
        st = setters(api, ty)
        roles = pars + COMMON
        for n in roles:
            if n not in st:
                raise Missing('builder %s::%s' % (tname(ty), n))

        def all_set(I, p):
            for n in roles:
                p = api.call(I, st[n], [p, rs(n)])
            return p
        for m in ('check_ref', 'check'):
            I = api.interp()
            p = all_set(I, build(api, I, ty, 'p', []))
            f = api.method('ParamGuard', (ty,), m)
            out = api.call(I, f, [p])
            rep.analysed(I)
            outcome(api, rep, '%s::%s' % (tname(ty).split('<')[0], m), f[0]['path'], out, roles)
            # what comes back on success is the configuration that was checked
            I2 = api.interp()
            want = all_set(I2, build(api, I2, ty, 'p', []))
            for k, (pc, v) in enumerate(paths_of(out)):
                if isinstance(v, Adt) and v.variant == 'Ok':
                    got = v.fields['0']
                    wv = want.fields.get('0') if isinstance(want, Adt) and len(want.fields) == 1 else None
                    if isinstance(got, Adt) and isinstance(wv, Adt) and got.path == wv.path:
                        for p_, q in equal_val(got, wv, hspace([rs(n) for n in roles])):
                            rep.res('%s::%s:checked%s' % (tname(ty).split('<')[0], m, p_), f[0]['path'], q)
                    else:
                        rep.und('%s::%s:checked' % (tname(ty).split('<')[0], m), f[0]['path'], show_val(got)[:200])
        for dm in ('dense', 'csc'):
            r = fit_once(api, est, dm, lambda r_, p: all_set(r_.I, p), rep)
            outcome(api, rep, '%s/%s:fit' % (est, dm), r.f['path'], r.out, roles, calls=r.calls)
        # a checked configuration cannot be made or altered without the check
        vt = dict(next(i for i in api.p.trait_impls(api.trait('ParamGuard')) if i['self'][:2] == ty[:2])['assoc']).get('Checked')
        a = api.p.adts.get(vt[1]) if vt and vt[0] == 'adt' else None
        if a:
            pub = [f['name'] for v in a['variants'] for f in v['fields'] if f.get('vis') == 'pub']
            rep.check('%s:fields are private' % tname(vt).split('<')[0], a['path'], not pub, 'public fields %s' % pub)
            mut = []
            for i in api.p.impls:
                if i['trait'] is None and i['self'][:2] == vt[:2]:
                    for n, fid in i['items']:
                        f = api.p.fns[fid]
                        if f.get('vis') == 'pub' and f['inputs'] and f['inputs'][0][0] == 'ref' and f['inputs'][0][1]:
                            mut.append(n)
            rep.add('%s:no public mutation' % tname(vt).split('<')[0], a['path'], 'undecided' if mut else 'held', str(mut), 1)


# ------------------------------------------------------------------ H03
def q_(x):
    return num(Fraction(x))


DOC_EST = {'alpha': q_(1), 'gamma': q_(3), 'l1_ratio': q_('1/2'), 'max_iterations': q_(50), 'max_epochs': q_(1000), 'ws_start_size': q_(10),
           'tolerance': q_('1e-6'), 'K': q_(5), 'use_acceleration': TRUE, 'verbose': TRUE}
DOC_SOLVER = {**{n: DOC_EST[n] for n in COMMON}, 'tolerance': q_('1e-8')}


def default_value(rep, key, where, got, want, sp):
    g = canon(reify(got))
    if [x for x in walk(g) if x.op == 'top']:
        rep.und(key, where, 'unmodelled: %s' % show(g)[:200])
    elif want is TRUE:
        rep.res(key, where, equal(sel(g, ONE, ZERO), ONE, sp))
    else:
        rep.res(key, where, equal(g, want, sp))


def makers(api, ty):
    """functions of the type that build a value of it out of nothing"""
    out = []
    for i in api.p.impls:
        if i['self'][:2] == ty[:2]:
            for n, fid in i['items']:
                f = api.p.fns.get(fid)
                if f and not f['inputs'] and f['output'] and strip(f['output'])[:2] == ty[:2]:
                    env = {}
                    api.p.unify(i['self'], ty, env, set(i['generics']))
                    out.append((f, env))
    return out


def H03(api, rep):
    for est, (pen, pars, multi) in EST.items():
        pty = params_type(api, est)
        ty = strip(pty)
        st = setters(api, ty)
        f, env = api.inherent(api.ty(est), 'params')
        sources = [(f, env)] + makers(api, ty)
        if len(sources) < 2:
            raise Missing('constructor of %s' % tname(ty))
        for src in sources:
            name = src[0]['path'].split('::')[-1]
            key = '%s/%s' % (est, 'params' if src is sources[0] else '%s %s' % (tname(ty), name))
            r = fit_once(api, est, 'dense', lambda r_, p: api.call(r_.I, src, []), rep)
            where = src[0]['path']
            if len(r.calls) != 1:
                rep.und(key, where, '%d calls of a solver (%s)' % (len(r.calls), r.I.unknown[:2]))
                continue
            path, pc, v, s = r.calls[0]
            sp = hspace(r.leaves)
            d = roles_of(api, r, est, r.calls[0])
            for n in COMMON:
                default_value(rep, '%s:%s' % (key, n), where, d[n], DOC_EST[n], sp)
            f2, env2 = api.inherent(api.ty(pen), 'new')
            want = api.call(r.I, (f2, env2), [DOC_EST[n] for n in pars])
            got = d['penalty']
            if isinstance(got, Adt) and isinstance(want, Adt) and got.path == want.path:
                for p_, q in equal_val(got, want, sp):
                    rep.res('%s:penalty%s' % (key, p_), where, q)
            else:
                rep.und(key + ':penalty', where, show_val(got)[:200])
            left = [c for c in pc if canon(reify(c)) is not TRUE]
            rep.add(key + ':valid', where, 'held' if not left else 'undecided', '; '.join(show(canon(reify(c)))[:100] for c in left), 1)
    ty = api.ty('Solver')
    for src in makers(api, ty):
        name = src[0]['path'].split('::')[-1]
        for multi in (False, True):
            tr, m = ('BCDSolver', 'solve_multi_task') if multi else ('CDSolver', 'solve')
            imp = [i for i in api.p.trait_impls(api.trait(tr)) if i['self'][0] == 'adt' and i['self'][1] == ty[1]]
            if len(imp) != 1 or m not in imp[0]['itemd']:
                raise Missing('impl %s for Solver' % tr)
            f = api.p.fns[imp[0]['itemd'][m]]
            r = Run(api)
            p = api.call(r.I, src, [])
            df = MutRef(r.I.new_cell(sym('datafit', 'O'), 'datafit'))
            api.call(r.I, (f, {}), [p, r.dataset(sym('design_matrix', 'O'), sym('targets', 'O')), df, sym('penalty', 'O')])
            rep.analysed(r.I)
            key, where = 'Solver::%s/%s' % (name, m), src[0]['path']
            if len(r.calls) != 1:
                rep.und(key, where, '%d calls of a solver' % len(r.calls))
                continue
            d = dict(zip(POS, r.calls[0][2][3:10]))
            for n in COMMON:
                default_value(rep, '%s:%s' % (key, n), where, d[n], DOC_SOLVER[n], hspace([]))
    written_defaults(api, rep)
    import pylayer
    pylayer.H03_python(api, rep)


def written_defaults(api, rep):
    """the defaults written in the documentation of the builders are those of the table above"""
    import os
    import re
    for fl in sorted(os.path.relpath(os.path.join(d, f), api.repo) for d, _, fs in os.walk(os.path.join(api.repo, 'src')) for f in fs if f.endswith('.rs')):
        path = os.path.join(api.repo, fl)
        who, said = None, None
        for line in open(path, errors='replace'):
            m = re.match(r'impl\b.*?(\w+)<F>\s*\{', line)
            if m:
                who, said = m.group(1), None
            t = line.strip()
            if t.startswith('///'):
                m = re.search(r'[Dd]efaults? to `([^`]+)`', t)
                said = m.group(1) if m else said
            elif t.startswith('pub fn '):
                n = re.match(r'pub fn (\w+)', t).group(1)
                table = DOC_SOLVER if who == 'Solver' else DOC_EST
                if said is not None and who and (who.endswith('Params') or who == 'Solver') and n in table:
                    want = table[n]
                    try:
                        ok = said == 'true' if want is TRUE else Fraction(said.replace('_', '')) == want.args[0]
                    except ValueError:
                        ok = None
                    key = '%s::%s:documentation' % (who, n)
                    rep.add(key, fl, 'undecided' if ok is None else 'held' if ok else 'violated', '' if ok else 'the documentation of %s::%s says %s' % (who, n, said), 1)
                said = None
            elif t and not t.startswith('#'):
                said = None
