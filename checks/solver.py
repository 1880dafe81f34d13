"""The solvers as a value graph: model extraction, and S01-S05, S08-S10 on it."""
import itertools
from api import *
from decide import *
from norm import Norm

NF = sym('p', 'N', min=1)           # number of features
NS = sym('n', 'N', min=1)           # number of samples
NT = sym('T', 'N', min=1)           # number of tasks
XS = sym('X', 'A', esort='R', shape=(NS, NF))
YS = sym('Y', 'A', esort='R', shape=(NS, NT))
WS0 = sym('ws_start_size', 'N', min=1)
MAXIT = sym('max_iterations', 'N')
MAXEP = sym('max_epochs', 'N')
TOL = sym('tolerance', 'R', nonneg=True)
KK = sym('K', 'N', min=1)
ACC = sym('use_acceleration', 'B')
VERB = sym('verbose', 'B')
DMS = sym('design_matrix', 'O')
TGS = sym('targets', 'O')
PENS = sym('penalty', 'O')
DF0 = sym('datafit', 'O')
LIP = 'lipschitz'


class Contract:
    """what the trait methods do, as M01-M06 establish it for every implementation in the library"""

    def __init__(self, multi):
        self.multi = multi
        self.log = []

    def e(self, I, v):
        return canon(reify(v, I))

    def rest(self, I, args, skip=()):
        """every argument that is not the array / index of interest, to make calls on other objects visible"""
        return [self.e(I, a) for k, a in enumerate(args) if k not in skip]

    def __call__(self, I, name, args, targs, ret):
        m = name.split('::')[-1]
        tr = name.split('::')[0]
        e = lambda k: self.e(I, args[k])
        rd = lambda k: I.read(args[k]) if isinstance(args[k], MutRef) else args[k]
        self.log.append((m, list(I.pc), I.site))
        if tr == 'DesignMatrix':
            if m == 'n_features':
                return NF if e(0) is DMS else NotImplemented
            if m == 'compute_extrapolated_fit' or m == 'compute_extrapolated_fit_multi_task':
                ws, w = I.force(args[1]), I.force(args[2])
                if not (isinstance(ws, Arr) and isinstance(w, Arr)) or e(0) is not DMS:
                    return NotImplemented
                I.effect('fitdim', (self.e(I, args[3]), NS))
                if len(args) == 5:
                    I.effect('fitdim', (self.e(I, args[4]), NT))

                b0 = bvar(ws.shape[0], 'q')
                I.effect('index', (w.shape[:1], (ws.at(b0),)))
                if len(args) == 5:
                    I.effect('fitdim', (w.shape[1], NT))

                def at(i, *t):
                    b = bvar(ws.shape[0], 'q')
                    j = ws.at(b)
                    return sum_(b, ws.shape[0], mul(elem(XS, i, j), w.at(j, *t)))
                return mkarr((self.e(I, args[3]),) + ((self.e(I, args[4]),) if len(args) == 5 else ()), at)
            if m in ('update_model_fit', 'update_model_fit_multi_task'):
                ref = I.chase(args[1])
                xw = I.read(ref)
                j = e(3)
                if not isinstance(xw, Arr) or e(0) is not DMS:
                    return NotImplemented
                I.effect('colindex', (NF, j))
                if m == 'update_model_fit':
                    d = e(2)
                    I.write(ref, mkarr(xw.shape, lambda i: add(xw.at(i), mul(d, elem(XS, i, j)))))
                else:
                    d = I.force(args[2])
                    if not isinstance(d, Arr):
                        return NotImplemented
                    I.effect('shapeeq', ((xw.shape[1],), d.shape))
                    I.write(ref, mkarr(xw.shape, lambda i, t: add(xw.at(i, t), mul(d.at(t), elem(XS, i, j)))))
                return UNIT
        if tr in ('AsMultiTargets', 'AsSingleTargets'):
            if e(0) is TGS:
                if m == 'n_samples':
                    return NS
                if m == 'n_tasks':
                    return NT
                if m == 'as_multi_tasks':
                    return mkarr((NS, NT), lambda i, t: elem(YS, i, t))
        if tr in ('Datafit', 'MultiTaskDatafit'):
            if m == 'initialize':
                ref = I.chase(args[0])
                I.write(ref, mk('app', 'init', *self.rest(I, args)))
                return UNIT
            if m == 'step_size':
                L = mk('app', LIP, e(0))
                SYM_INFO.setdefault(L, {}).update(shape=(NF,), nonneg=True)
                return mkarr((NF,), lambda j: elem(L, j))
            if m == 'gradient_j':
                xw = I.force(args[2])
                if isinstance(xw, Arr):
                    I.effect('shapeeq', (xw.shape, (NS, NT) if self.multi else (NS,)))
                I.effect('colindex', (NF, e(3)))
                g = mk('app', 'grad', *self.rest(I, args))
                if not self.multi:
                    return g
                SYM_INFO.setdefault(g, {})['shape'] = (NT,)
                return mkarr((NT,), lambda t: elem(g, t))
            if m == 'full_grad':
                q = fresh('fg', 'N')
                if not self.multi:
                    return mkarr((NF,), lambda j: mk('app', 'grad', *self.rest(I, args), j))
                return mkarr((NF, NT), lambda j, t: elem(mk('app', 'grad', *self.rest(I, args), j), t))
            if m == 'value':
                return mk('app', 'dfval', *self.rest(I, args))
        if tr in ('Penalty', 'MultiTaskPenalty'):
            if m == 'prox':
                p = mk('app', 'prox', *self.rest(I, args))
                if not self.multi:
                    return p
                v = I.force(args[1])
                n = v.shape[0] if isinstance(v, Arr) else NT
                SYM_INFO.setdefault(p, {})['shape'] = (n,)
                return mkarr((n,), lambda t: elem(p, t))
            if m == 'value':
                return mk('app', 'penval', *self.rest(I, args))
            if m == 'subdiff_distance':
                w, g, ws = I.force(args[1]), I.force(args[2]), I.force(args[3])
                if not all(isinstance(x, Arr) for x in (w, g, ws)):
                    return NotImplemented
                pen = e(0)
                # element i reads gradient i and coefficient ws[i]
                I.effect('shapeeq', ((g.shape[0],), (ws.shape[0],)))
                b = bvar(ws.shape[0], 'q')
                I.effect('index', (w.shape[:1], (ws.at(b),)))

                def d(i):
                    j = ws.at(i)
                    return dist(pen, w, j, g, i, I, self.multi)
                return Tup([mkarr((ws.shape[0],), d), red('maxr', b, ws.shape[0], d(b), NINF)])
        return NotImplemented


def dist(pen, w, j, g, i, I, multi):
    if not multi:
        return mk('app', 'dist', pen, canon(w.at(j)), canon(g.at(i)))
    row = lambda a, k: canon(reify(mkarr(a.shape[1:], lambda t: a.at(k, t)), I))
    return mk('app', 'dist', pen, row(w, j), row(g, i))


class Model:
    def __init__(self, api, multi, barriers=None):
        self.multi = multi
        self.api = api
        name = 'block_coordinate_descent' if multi else 'coordinate_descent'
        APP_SHAPE.clear()
        APP_SHAPE.update({LIP: lambda a: (NF,), 'solve': lambda a: (shape(a.args[2], 0),)})
        if multi:
            APP_SHAPE.update({'grad': lambda a: (NT,), 'prox': lambda a: (NT,)})
        self.fn = api.fn(name)
        self.loc = self.fn['path']
        I = self.I = api.interp()
        self.con = I.opaque_hook = Contract(multi)
        if barriers:
            I.barriers.update(barriers(self))
        dpath = api.adt('DatasetBase')
        self.ds = Adt(dpath, api.p.adts[dpath]['variants'][0]['name'], {'design_matrix': DMS, 'targets': TGS})
        self.df = MutRef(I.new_cell(DF0, 'datafit'))
        if len(self.fn['params']) != 10:
            raise Missing('parameters of %s' % self.loc)
        args = [self.ds, self.df, PENS, WS0, MAXIT, MAXEP, TOL, KK, ACC, VERB]
        self.result = api.call(I, self.fn, args)
        self.dfstate = I.read(self.df)
        self.DF = mk('app', 'init', DF0, canon(reify(self.ds, I)))
        self.shape_w = (NF, NT) if multi else (NF,)
        self.shape_x = (NS, NT) if multi else (NS,)
        self.dse = canon(reify(self.ds, I))

    # specification helpers ------------------------------------------------
    def grad(self, Xw, j):
        return mk('app', 'grad', self.DF, self.dse, canon(reify(Xw)), j)

    def lip(self, j):
        return elem(mk('app', LIP, self.DF), j)

    def obj(self, w, Xw):
        return add(mk('app', 'dfval', self.DF, self.dse, canon(reify(Xw))), mk('app', 'penval', PENS, canon(reify(w))))

    def dist(self, w, Xw, j):
        if not self.multi:
            return mk('app', 'dist', PENS, canon(w.at(j)), self.grad(Xw, canon(j)))
        g = self.grad(Xw, canon(j))
        return mk('app', 'dist', PENS, canon(reify(mkarr((NT,), lambda t: w.at(j, t)))), g)


# ------------------------------------------------------------------ structure
WSY = sym('ws', 'A', esort='N', emax=NF)
MSZ = sym('ws_size', 'N', min=1, max_=NF)


def asyms(v):
    """array symbols occurring in a value"""
    return {x for x in walk(reify(v)) if x.op == 'sym' and x.args[1] == 'A'}


def base_sym(v):
    """the array symbol a plain array value stands for"""
    if isinstance(v, Arr) and isinstance(v.body, E) and v.body.op == 'elem' and v.body.args[1:] == v.bvs:
        return v.body.args[0]
    return None


def apps(v, name):
    return [x for x in walk(reify(v)) if x.op == 'app' and x.args[0] == name]


class Stage:
    """one loop of the nest with its coefficient and model-fit leaves"""

    def __init__(self, rec):
        self.rec = rec
        self.w = self.x = None
        self.iw = self.ix = None


def leaf_shape(l):
    return l['phi'].shape if isinstance(l['phi'], Arr) else None


def is_shape(sh, want):
    return sh is not None and len(sh) == len(want) and all(expand(sub(a, b)) is ZERO for a, b in zip(sh, want))


def outs_of(rec):
    d = {}
    for k, l in enumerate(rec.leaves):
        s = base_sym(l['out'])
        if s is not None:
            d[s] = k
    return d


def pick(rec, shape_, used):
    """the leaf of that shape whose value after the loop is used; several: those used by `used`"""
    c = [k for k, l in enumerate(rec.leaves) if is_shape(leaf_shape(l), shape_)]
    if len(c) > 1 and used is not None:
        sy = asyms(used)
        c2 = [k for k in c if base_sym(rec.leaves[k]['out']) in sy]
        c = c2 or c
    return c


class NotThere(Exception):
    pass


def stages(M):
    """the nest: iterations (0), passes (1), coordinates (2)"""
    I = M.I
    top_ = [l for l in I.loops if l.parent is None]
    res_s = asyms(M.result)
    R0 = None
    for l in top_:
        if set(outs_of(l)) & res_s or any(set(asyms(v)) & res_s for x in l.returns for v in x['vals']):
            R0 = l
    if R0 is None:
        raise NotThere('no loop produces the returned coefficients')
    used_w, out = M.result, []
    rec = R0
    for depth in range(3):
        st = Stage(rec)
        c = pick(rec, M.shape_w, used_w)
        if len(c) != 1:
            raise NotThere('%d coefficient arrays in loop %d of the nest (%s)' % (len(c), depth, rec.site))
        st.iw = c[0]
        st.w = rec.leaves[c[0]]
        xs = [k for k, l in enumerate(rec.leaves) if is_shape(leaf_shape(l), M.shape_x)]
        if len(xs) > 1:
            # the one whose value a gradient reads
            rd = set()
            for l in I.loops:
                for lf in l.leaves:
                    if lf['step'] is not None:
                        for g in apps(lf['step'], 'grad'):
                            rd |= {s for s in free(g.args[3]) if s.op == 'sym'}
            xs = [k for k in xs if base_sym(rec.leaves[k]['phi']) in rd or base_sym(rec.leaves[k]['out']) in rd] or xs
        if len(xs) != 1:
            raise NotThere('%d model-fit arrays in loop %d of the nest (%s)' % (len(xs), depth, rec.site))
        st.ix = xs[0]
        st.x = rec.leaves[xs[0]]
        out.append(st)
        if depth == 2:
            break
        used_w = st.w['step']
        nxt = [ch for ch in rec.children if any(is_shape(leaf_shape(l), M.shape_w) for l in ch.leaves)]
        if len(nxt) > 1:
            sy = asyms(used_w)
            nxt = [ch for ch in nxt if set(outs_of(ch)) & sy] or nxt
        if len(nxt) != 1:
            raise NotThere('%d loops change the coefficients inside loop %d (%s)' % (len(nxt), depth, rec.site))
        rec = nxt[0]
    return out


def abstract_ws(M, S):
    """name the working set: returns (substitution, its defining expression, its size expression, index of a step)"""
    srt = {}
    seen = set()
    for l in M.I.loops:
        for lf in l.leaves:
            for v in (lf['step'], lf['init']):
                if v is not None:
                    for x in apps(v, 'sorted'):
                        srt.setdefault(canon(x), set()).add(x)
        for x in l.exits + l.returns:
            for y in [z for z in walk(x['c']) if z.op == 'app' and z.args[0] == 'sorted']:
                srt.setdefault(canon(y), set()).add(y)
    return srt


def repl(v, m):
    return vreplace_deep(v, m)


def vreplace_deep(v, m):
    if isinstance(v, E):
        return replace(v, m)
    if isinstance(v, Arr):
        sh = [replace(s, m) for s in v.shape]
        return Arr(sh, v.bvs, vreplace_deep(v.body, m))
    if isinstance(v, Tup):
        return Tup([vreplace_deep(x, m) for x in v.items])
    if isinstance(v, Adt):
        return Adt(v.path, v.variant, {k: vreplace_deep(x, m) for k, x in v.fields.items()}, v.ty)
    if isinstance(v, Cond):
        return merge(replace(v.c, m), vreplace_deep(v.a, m), vreplace_deep(v.b, m))
    return v


# ------------------------------------------------------------------ admissible states
def w_like(M, S):
    out = set()
    for st in S:
        for l in (st.w,):
            for k in ('phi', 'out'):
                s = base_sym(l[k])
                if s is not None:
                    out.add(s)
    return out


ELS = [Fraction(x) for x in ('0', '0', '1/2', '-1/3', '2', '-3/2', '1', '7/5', '-9/4', '3')]


def solver_space(M, S, n=240):
    wl = w_like(M, S)

    def arrs(s, rng):
        p = s.ev(NF)
        perm = list(range(p))
        rng.shuffle(perm)
        d = {WSY: lambda i: perm[int(i)] if 0 <= int(i) < p else 0}
        from sigma import _h
        keep = rng.choice((0, 2, 5, 10, 10))        # how many of ten entries are not forced to zero

        def el(a, ix):
            h = _h(s.seed, a.args[0], tuple(int(i) for i in ix))
            return ELS[h % len(ELS)] if (h // 64) % 10 < keep else Fraction(0)
        for a in wl:
            d[a] = lambda *ix, a=a: el(a, ix)
        return d
    sc = {NF: [1, 2, 2, 3, 4, 5], NS: [1, 2, 3], NT: [1, 2, 2, 3], WS0: [1, 1, 2, 3, 5], KK: [1, 1, 2, 3], MAXIT: [0, 1, 2, 3, 5], MAXEP: [0, 1, 2, 3, 5],
          ACC: [True, True, False], VERB: [True, False], TOL: lambda r: r.choice([Fraction(0), Fraction(1, 50), Fraction(1), Fraction(3), Fraction(11, 2)])}
    return Space(sc, [], None, arrs, n=n)


SYM_INFO[WSY]['inj'] = True


def name_ws(v):
    """name the sorted working set; None if something else is sorted too"""
    def one(e):
        m = {x: WSY for x in apps(e, 'sorted')}
        return replace(e, m) if m else e
    return vmap(v, one)


def ws_terms(M):
    t = {}
    for l in M.I.loops:
        for lf in l.leaves:
            for k in ('step', 'init'):
                if lf[k] is not None:
                    for x in apps(lf[k], 'sorted'):
                        t[canon(x)] = x
        for x in l.exits + l.returns:
            for y in apps(x['c'], 'sorted'):
                t[canon(y)] = y
            for v in x['vals']:
                for y in apps(v, 'sorted'):
                    t[canon(y)] = y
    return t


def conj(c):
    """literals of a conjunction"""
    if c is TRUE:
        return []
    if c.op == 'and':
        return [y for x in c.args for y in conj(x)]
    if c.op == 'not' and c.args[0].op == 'or':
        return [y for x in c.args[0].args for y in conj(not_(x))]
    return [c]


def disj(c, lim=8):
    """a few disjuncts"""
    if c.op == 'or':
        out = []
        for x in c.args:
            out += disj(x, lim)
        return out if len(out) <= lim else [c]
    if c.op == 'sel' and c.args[1].op != 'num':
        return [and_(c.args[0], c.args[1]), and_(not_(c.args[0]), c.args[2])]
    if c.op == 'and':
        for k, x in enumerate(c.args):
            d = disj(x, lim)
            if len(d) > 1:
                rest = c.args[:k] + c.args[k + 1:]
                out = [z for y in d for z in disj(and_(y, *rest), lim)]
                return out if len(out) <= lim else [c]
    return [c]


def cases(body, bvs, pc=()):
    """split a value at its guards that do not depend on the position"""
    if isinstance(body, Cond):
        c, a, b = body.c, body.a, body.b
    elif isinstance(body, E) and body.op == 'sel':
        c, a, b = body.args
    else:
        return [(pc, body)]
    if free(c) & set(bvs):
        return [(pc, body)]
    out = []
    for cc, v in ((c, a), (not_(c), b)):
        if contradicts(pc, cc):
            continue
        out += cases(v, bvs, pc + tuple(x for x in conj(cc) if x not in pc))
    return out


def contradicts(pc, c):
    cs = conj(c)
    s = set(pc)
    for x in cs:
        if not_(x) in s:
            return True
        if x.op == 'not' and x.args[0].op == 'and' and all(y in s for y in x.args[0].args):
            return True
        for y in pc:
            if y.op == 'not' and y.args[0].op == 'and' and all(z in s or z in cs for z in y.args[0].args):
                return True
    return False


def arr_cases(v):
    return [(pc, Arr(v.shape, v.bvs, b)) for pc, b in cases(v.body, v.bvs)]


def restrict(v, pc):
    """the value under the literals pc"""
    m = {}
    for c in pc:
        if c.op == 'not':
            m[c.args[0]] = FALSE
        else:
            m[c] = TRUE
    return vmap(v, lambda e: replace(e, m))


def state_syms(e):
    return {s for s in walk(reify(e)) if s.op == 'sym' and s.args[0].split(':')[0] in ('phi', 'out', 'loopret', 'havoc') or s.op == 'top' or s.op == 'app' and '::' in str(s.args[0])}


def close_bvs(M, e, extra=()):
    """loop counters become symbols"""
    fv = [b for b in free(e) if b.op == 'bv']
    return e


def refute(sp, conds, fact, n=4000, enough=300):
    """a sample on which all conditions hold and the fact does not: (description | None, number of samples that satisfied the conditions)"""
    hit = 0
    conds = sorted(conds, key=lambda c: sum(1 for _ in walk(c)))
    base = []

    def points():
        for s in sp.samples(n=n):
            if hit >= enough:
                return
            if len(base) < 40:
                base.append(s)
            yield s
    for s in itertools.chain(points(), on_int_boundaries(list(conds) + [fact], sp, None, base, 8)):
        try:
            if not all(s.ev(c) for c in conds):
                continue
        except (Uneval, Uncertain):
            continue
        try:
            f = s.ev(fact)
        except (Uneval, Uncertain):
            continue
        hit += 1
        if not f:
            return show_sigma(s, list(conds) + [fact]), hit
    return None, hit


def holds_eq(a, b, sp, idx=()):
    return a is b or equal(a, b, sp, idx).status == 'held'


def cmp_parts(c):
    """(kind, small side, large side) of an order literal: kind 'lt' or 'le'"""
    if c.op in ('flt', 'lt'):
        return 'lt', c.args[0], c.args[1]
    if c.op == 'fle':
        return 'le', c.args[0], c.args[1]
    if c.op == 'not' and c.args[0].op in ('flt', 'lt'):
        return 'le', c.args[0].args[1], c.args[0].args[0]
    if c.op == 'not' and c.args[0].op == 'fle':
        return 'lt', c.args[0].args[1], c.args[0].args[0]
    return None


def lit_implies(c, kind, a, b, sp):
    """does the literal c say a < b (or a <= b)?"""
    q = cmp_parts(c)
    if q is None:
        return False
    if kind == 'lt' and q[0] == 'le':
        return False
    return holds_eq(q[1], a, sp) and holds_eq(q[2], b, sp)


class Ctx:
    """one solver with its nest, sample space and names"""

    def __init__(self, api, multi, rep):
        self.tag = 'BCD' if multi else 'CD'
        self.M = M = Model(api, multi, barriers=solve_barrier)
        rep.analysed(M.I)
        self.loc = M.loc
        self.S = stages(M)
        for st in self.S:
            # the state of the nest itself is what the properties speak about
            for l in st.rec.leaves:
                for x in unsolved(reify(l['out'])):
                    SYM_INFO.setdefault(x, {})['unsolved'] = False
        self.sp = solver_space(M, self.S)
        self.ws = ws_terms(M)
        R0, R1, R2 = (s.rec for s in self.S)
        self.size = R2.n
        self.T = (NT,) if multi else ()

    def nm(self, v):
        """name the loop counters and the working set"""
        m = {}
        R0, R1, R2 = (s.rec for s in self.S)
        for r, s_ in ((R0, IT), (R1, EP)):
            if r.q is not None:
                m[r.q] = s_

        def one(e):
            e = subst(e, m)
            t = {x: WSY for x in apps(e, 'sorted')}
            return replace(e, t) if t else e
        return vmap(v, one)

    def space(self, cons=(), **k):
        sp = self.sp.with_(**k)
        sp.scal = dict(sp.scal)
        sp.scal[IT] = [0, 1, 2, 5]
        sp.scal[EP] = list(range(0, 13)) + [10, 10, 20, 20, 30, 40, 50]
        if any(EPA in free(c) or any(y is EPA for y in walk(c)) for c in cons):
            sp.scal[EPA] = [0, 1, 2, 3, 5, 10, 10, 20, 30]
        sp.cons = list(cons)
        return sp

    def V(self, w, x, n=None, at=None):
        """largest violation over the features at(q), q < n"""
        n = NF if n is None else n
        b = bvar(n, 'q')
        return red('maxr', b, n, self.M.dist(w, x, b if at is None else at(b)), NINF)


IT = sym('iteration', 'N')
EP = sym('epoch', 'N')
EPA = sym('earlier epoch', 'N')
QQ = sym('position', 'N')


def solve_barrier(M):
    """the linear-system helper is an uninterpreted function of its matrix and right-hand side here; M10 decides the helper itself"""
    try:
        f = M.api.fn('solve_lin_sys')
    except Missing:
        return {}

    def h(I, path, args, targs, ret):
        if len(args) != 2 or not isinstance(I.force(args[0]), Arr):
            return NotImplemented
        A, b = I.force(args[0]), I.force(args[1])
        if not (isinstance(A, Arr) and isinstance(b, Arr) and A.ndim == 2 and b.ndim == 1):
            return NotImplemented
        I.effect('shapeeq', (A.shape, (b.shape[0], b.shape[0])))
        Ae, be = canon(reify(A, I)), canon(reify(b, I))
        z = mk('app', 'solve', Ae, be)
        SYM_INFO.setdefault(z, {})['shape'] = (b.shape[0],)
        ok = mk('app', 'solvable', Ae, be)
        er = ret[2][1] if ret and ret[0] == 'adt' and len(ret[2]) > 1 else None
        return Cond(ok, Ok(mkarr((b.shape[0],), lambda i: elem(z, i))), Err(mk('app', 'singular')))
    return {f['path']: h}


def both(api, rep, f):
    for multi in (False, True):
        try:
            C = Ctx(api, multi, rep)
        except NotThere as ex:
            rep.und('%s:nest' % ('BCD' if multi else 'CD'), '', str(ex))
            continue
        f(C, rep)


# ------------------------------------------------------------------ S01
def exits_of(C, k):
    """(condition, w, Xw, what) of every way out of loop k other than running to its end"""
    st = C.S[k]
    out = []
    for what, lst in (('break', st.rec.exits), ('return', st.rec.returns)):
        for x in lst:
            out.append((C.nm(x['c']), C.nm(x['vals'][st.iw]), C.nm(x['vals'][st.ix]), what, x))
    return out


def foreign_state(C, conds, *vals):
    """state the condition reads besides what the values are made of"""
    ok = set()
    for v in vals:
        ok |= state_syms(v)
    for st in C.S:
        for l in (st.w, st.x):
            for k in ('phi', 'out'):
                ok |= state_syms(l[k])
    return set().union(*[state_syms(c) for c in conds]) - ok if conds else set()


def below_fraction(l, V, V0, sp):
    """does the literal say V < c*V0 (or <=) with 0 <= c <= 1?"""
    q = cmp_parts(l)
    if q is None or not holds_eq(q[1], V, sp):
        return False
    cs = {Fraction(y.args[0]) for y in walk(q[2]) if y.op == 'num'} | {Fraction(1)}
    return any(0 <= c <= 1 and holds_eq(q[2], mul(num(c), V0), sp) for c in sorted(cs))


def progressed(C, rep, key, c, w, x, n, at, cons, V0):
    """c implies that the largest violation over the subproblem is at most the tolerance or the one its iteration began with"""
    sp = C.space(cons)
    V = C.V(w, x, n, at)
    worst = None
    for d in disj(c):
        cs = conj(d)
        if any(lit_implies(l, 'le', V, TOL, sp) or lit_implies(l, 'le', canon(V), TOL, sp) or below_fraction(l, V, V0, sp) for l in cs):
            continue
        if foreign_state(C, cs, w, x):
            worst = worst or 'the condition reads loop state'
            continue
        bad, hit = refute(sp, cs, or_(fle(V, TOL), fle(V, V0)))
        if bad is not None:
            rep.bad(key, C.loc, 'a subproblem is closed early under %s while its violation can exceed the one its iteration began with (%s)' % (
                show(d)[:400], bad))
            return
        worst = worst or 'cannot match the condition %s' % show(d)[:300]
    if worst:
        rep.und(key, C.loc, worst)
    else:
        rep.ok(key, C.loc, cells=len(disj(c)))


def certified(C, rep, key, c, w, x, n, at, cons, alt=(), past=False):
    """c implies that the largest violation at (w, x) over n features is at most the tolerance (or one of `alt` holds)"""
    sp = C.space(cons)
    V = C.V(w, x, n, at)
    worst = None
    for d in disj(c):
        cs = conj(d)
        if past:
            bad, hit = refute(sp, cs, or_(fle(V, TOL), *alt))
            if bad is not None:
                rep.bad(key, C.loc, 'the loop ends under %s while the largest violation at the resulting coefficients can exceed the tolerance (%s)' % (
                    show(d)[:400], bad))
                return
            worst = worst or ('und', 'the condition reads state of earlier passes: %s' % show(d)[:300])
            continue
        if any(lit_implies(l, 'le', canon(V), TOL, sp) or lit_implies(l, 'le', V, TOL, sp) for l in cs):
            continue
        if any(any(canon(l) is canon(a) or holds_eq(l, a, sp) for l in cs) for a in alt):
            continue
        fact = or_(fle(V, TOL), *alt)
        if foreign_state(C, cs, w, x):
            worst = worst or ('und', 'the condition reads loop state: %s' % sorted(show(s) for s in foreign_state(C, cs, w, x))[:3])
            continue
        bad, hit = refute(sp, cs, fact)
        if bad is not None:
            rep.bad(key, C.loc, 'the loop ends under %s while the largest violation at the resulting coefficients can exceed the tolerance (%s)' % (
                show(d)[:400], bad))
            return
        worst = worst or ('und', 'cannot match the condition %s' % show(d)[:300])
    if worst:
        rep.und(key, C.loc, worst[1])
    else:
        rep.ok(key, C.loc, cells=len(disj(c)))


def pulled_back(C, c, w, x):
    """an exit of the iterations that tests state set in the previous iteration, restated over the last pass of that
    iteration: [(description, condition, w, Xw, constraints)]"""
    R0, R1 = C.S[0].rec, C.S[1].rec
    nleaf = len(R1.leaves)
    ways = [('after the last pass', TRUE, [l['step'] for l in R1.leaves])]
    for k, e in enumerate(R1.exits):
        ways.append(('after break %d of the passes' % k, e['c'], list(e['vals'])))
    out = []
    for what, cond, vals in ways:
        if len(vals) != nleaf or any(v is None for v in vals):
            continue
        m1 = {}
        for l, v in zip(R1.leaves, vals):
            s = base_sym(l['out']) or (l['out'] if isinstance(l['out'], E) and l['out'].op == 'sym' else None)
            if s is not None:
                m1[s] = reify(v)
        m0 = {}
        for l in R0.leaves:
            s = base_sym(l['phi']) or (l['phi'] if isinstance(l['phi'], E) and l['phi'].op == 'sym' else None)
            if s is None or l['step'] is None:
                continue
            m0[s] = canon(replace(reify(C.nm(l['step'])), {a: C.nm(b) for a, b in m1.items()}))
        sub_ = lambda v: vmap(v, lambda e: replace(e, m0))
        c2 = sub_(c)
        cons = [not_(c)] + [not_(y[0]) for y in exits_of(C, 0) if y[0] is not c and not foreign_state(C, [y[0]])]
        out.append((what, and_(C.nm(cond), c2), sub_(w), sub_(x), cons))
    return out


def settings(v, s, pc=()):
    """the values a leaf is given other than its previous one: [(conditions, value)]"""
    if v is s:
        return []
    if isinstance(v, E) and v.op == 'sel' and len(v.args) == 3:
        return settings(v.args[1], s, pc + (v.args[0],)) + settings(v.args[2], s, pc + (not_(v.args[0]),))
    return [(pc, v)]


def leaf_sym(v):
    return base_sym(v) or (v if isinstance(v, E) and v.op == 'sym' else None)


def earlier_passes(C, c, w, x):
    """an exit of the passes that tests scalar state set in an earlier pass, restated over the pass that set it:
    [(description, condition, constraints)]; the coefficients of the current pass are unrelated to those of that pass unless it was
    the last one, which the constraints rule out (there the exit was not taken)"""
    R1, R2 = C.S[1].rec, C.S[2].rec
    phis = {}
    for l in R1.leaves:
        s = leaf_sym(l['phi'])
        if s is not None and l['step'] is not None:
            phis[s] = l
    inner = [leaf_sym(l['out']) for l in R2.leaves]
    if any(y is None for y in inner):
        return []
    foreign = foreign_state(C, [c], w, x)
    if not foreign or any(f not in phis or isinstance(phis[f]['phi'], Arr) for f in foreign):
        return []

    def rename(tag, e):
        m = {}
        for y in walk(e):
            if y.op == 'sym' and (y in phis or y in inner):
                z = sym('%s:%s' % (y.args[0], tag), y.args[1])
                SYM_INFO[z] = dict(SYM_INFO.get(y, {}))
                m[y] = z
        return replace(e, m)
    steps = {s: reify(C.nm(l['step'])) for s, l in phis.items()}
    if any(y.op == 'top' for e in steps.values() for y in walk(e)):
        return []
    at_a = {s: subst(rename('then', e), {EP: EPA}) for s, e in steps.items()}
    nxt = {s: e for s, e in at_a.items()}
    c_next = subst(replace(rename('next', reify(c)), {rename('next', s): e for s, e in nxt.items()}), {EP: add(EPA, ONE)})
    out = []
    combos = [([], {})]
    for f in sorted(foreign, key=show):
        got = settings(steps[f], f)
        if not got or any(f in state_syms(v) for _, v in got) or len(got) > 4:
            return []
        combos = [(pcs + list(pc), {**m, f: v}) for pcs, m in combos for pc, v in got]
    for pcs, m in combos[:8]:
        here = lambda e: subst(rename('then', e), {EP: EPA})
        m2 = {f: here(v) for f, v in m.items()}
        cons = [here(reify(y)) for y in pcs] + [not_(c_next), ilt(add(EPA, ONE), EP)]
        out.append(('reading state set in an earlier pass', canon(replace(reify(c), m2)), cons))
    return out


def S01(api, rep):
    def f(C, rep):
        M = C.M
        R0, R1, R2 = (s.rec for s in C.S)
        for k, (c, w, x, what, raw) in enumerate(exits_of(C, 0)):
            key = '%s:iterations:%s%d' % (C.tag, what, k)
            if foreign_state(C, [c], w, x):
                for way, c2, w2, x2, cons in pulled_back(C, c, w, x):
                    certified(C, rep, key + ' ' + way, c2, w2, x2, None, None, cons)
            else:
                certified(C, rep, key, c, w, x, None, None, [])
        # not taken exits of the iteration hold inside it
        cons = []
        for c, w, x, what, raw in exits_of(C, 0):
            if not foreign_state(C, [c]) and base_sym(w) is base_sym(C.S[0].w['phi']):
                cons.append(not_(c))
        size = C.nm(C.size)
        for k, (c, w, x, what, raw) in enumerate(exits_of(C, 1)):
            key = '%s:passes:%s%d' % (C.tag, what, k)
            if what == 'return':
                certified(C, rep, key, c, w, x, None, None, cons)
            else:
                past = earlier_passes(C, c, w, x)
                for way, c2, cons2 in past:
                    certified(C, rep, key + ' ' + way, c2, w, x, size, lambda b: elem(WSY, b), cons + cons2,
                              alt=(not_(ieq(size, NF)),), past=True)
                if past:
                    continue
                certified(C, rep, key, c, w, x, size, lambda b: elem(WSY, b), cons, alt=(not_(ieq(size, NF)), ilt(size, NF)))
                w0, x0 = C.nm(C.S[0].w['phi']), C.nm(C.S[0].x['phi'])
                progressed(C, rep, key + ':progress', c, w, x, size, lambda b: elem(WSY, b), cons, C.V(w0, x0))
        for k, (c, w, x, what, raw) in enumerate(exits_of(C, 2)):
            key = '%s:coordinates:%s%d' % (C.tag, what, k)
            if what == 'return':
                certified(C, rep, key, c, w, x, None, None, cons)
        # what is returned are the coefficients of the exit
        out = C.S[0].w['out']
        for p, r in equal_val(M.result, out, C.space()):
            rep.res('%s:returned coefficients%s' % (C.tag, p), C.loc, r)
    both(api, rep, f)


# ------------------------------------------------------------------ S02
def objective(C, w, x):
    return C.M.obj(w, x)


def adopted(C):
    """(guards, w, Xw, w replaced?, Xw replaced?) for the ways one pass can end"""
    st, inner = C.S[1], C.S[2]
    wc = arr_cases(C.nm(st.w['step']))
    xc = arr_cases(C.nm(st.x['step']))
    sw, sx = base_sym(inner.w['out']), base_sym(inner.x['out'])
    out = []
    for pc, a in wc:
        for qc, b in xc:
            if contradicts(pc, and_(*qc)):
                continue
            out.append((list(pc) + [y for y in qc if y not in pc], a, b, base_sym(a) is not sw, base_sym(b) is not sx))
    return out


def S02(api, rep):
    def f(C, rep):
        st, inner = C.S[1], C.S[2]
        sp = C.space()
        w0, x0 = C.nm(inner.w['out']), C.nm(inner.x['out'])
        old = objective(C, w0, x0)
        seen = 0
        for k, (pc, w, x, cw, cx) in enumerate(adopted(C)):
            key = '%s:case %d' % (C.tag, k)
            if not cw and not cx:
                rep.ok(key, C.loc, 'nothing replaced')
                continue
            if cw != cx:
                bad, hit = refute(sp, pc, FALSE)
                what = 'coefficients' if cw else 'model fit'
                if bad is not None and not foreign_state(C, pc, w, x):
                    # replaced by an equal value?
                    a, b = (w, w0) if cw else (x, x0)
                    rs = equal_val(a, b, C.space(pc))
                    if all(r.status == 'held' for _, r in rs):
                        rep.ok(key, C.loc)
                    elif any(r.status == 'violated' for _, r in rs):
                        rep.bad(key, C.loc, 'only the %s are replaced when %s (%s)' % (what, [show(y)[:120] for y in pc], bad))
                    else:
                        rep.und(key, C.loc, 'only the %s seem replaced' % what)
                else:
                    rep.und(key, C.loc, 'guards not satisfied on any sample')
                continue
            seen += 1
            new = objective(C, w, x)
            lits = [l for l in pc if lit_implies(l, 'lt', new, old, sp)]
            if lits:
                if any(l.op == 'not' for l in lits) and not any(l.op == 'flt' for l in lits):
                    if any(e.kind == 'isnan' for e in C.M.I.effects):
                        rep.und(key, C.loc, 'the acceptance test is the negation of "old <= new", and values that are not numbers are treated elsewhere')
                        continue
                    rep.bad(key, C.loc, 'the acceptance test is the negation of "old <= new": it also accepts an objective that is not a number')
                else:
                    rep.ok(key, C.loc)
                continue
            if foreign_state(C, pc, w, x):
                rep.und(key, C.loc, 'the acceptance condition reads loop state')
                continue
            bad, hit = refute(sp, pc, flt(new, old))
            if bad is not None:
                rep.bad(key, C.loc, 'the extrapolated point is adopted under %s although its objective is not lower (%s)' % ([show(y)[:160] for y in pc], bad))
            else:
                rep.und(key, C.loc, 'cannot match the acceptance condition %s' % [show(y)[:160] for y in pc])
        rep.count('adopting cases', seen)
        # nothing else replaces coefficients between passes
        for p, r in equal_val(C.nm(C.S[0].w['step']), C.nm(C.S[1].w['out']), sp):
            rep.res('%s:after the passes%s' % (C.tag, p), C.loc, r)
        for p, r in equal_val(C.nm(C.S[0].x['step']), C.nm(C.S[1].x['out']), sp):
            rep.res('%s:model fit after the passes%s' % (C.tag, p), C.loc, r)
    both(api, rep, f)
    # ... and the model fit of the extrapolated coefficients is what the design matrices compute
    import maths
    maths.model_fits(api, rep, ('extrapolated',))


# ------------------------------------------------------------------ S03
def xdot(C, w, pairs, i, t):
    """row i of X w as an expression, given (X w0)[i] for the arrays in `pairs`"""
    b = w.bvs[0]
    tb = w.bvs[1:]

    def col(j):
        return elem(XS, i, j)

    def bd(v):
        return subst(v, dict(zip(tb, t))) if tb else v

    def go(v):
        if v is ZERO:
            return ZERO
        if v.op == 'sel':
            c, a, z = v.args
            if b not in free(c):
                return sel(bd(c), go(a), go(z))
            cs = conj(c)
            for k, l in enumerate(cs):
                if l.op == 'eq':
                    for p, q in ((l.args[0], l.args[1]), (l.args[1], l.args[0])):
                        j = solve_for(b, p, q)
                        if j is not None:
                            rest = and_(*(cs[:k] + cs[k + 1:]))
                            at = lambda e: bd(subst(e, {b: j}))
                            return add(go(z), mul(col(bd(j)), sel(at(rest), sub(at(a), at(z)), ZERO)))
        if v.op == 'add':
            return add(*[go(y) for y in v.args])
        if v.op == 'mul':
            fr = [y for y in v.args if b not in free(y)]
            dep = [y for y in v.args if b in free(y)]
            if fr and len(dep) == 1:
                return mul(*[bd(y) for y in fr], go(dep[0]))
        if v.op == 'elem' and v.args[0] in pairs and v.args[1:] == w.bvs:
            return elem(pairs[v.args[0]], i, *t)
        if v.op == 'scat':
            q, n, c, val_, init = v.args
            if init is ZERO and c.op == 'eq' and b not in free(val_):
                for p, r in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                    if p is b and r.op == 'elem' and SYM_INFO.get(r.args[0], {}).get('inj') and b not in free(r):
                        return bd(sum_(q, n, mul(col(r), val_)))
        j = bvar(NF, 'j')
        return sum_(j, NF, mul(col(j), bd(subst(v, {b: j}))))
    return go(w.body)


def S03(api, rep):
    def f(C, rep):
        M = C.M
        pairs = {}
        for st in C.S:
            for k in ('phi', 'out'):
                a, b = base_sym(st.w[k]), base_sym(st.x[k])
                if a is not None and b is not None:
                    pairs[a] = b
        i = sym('row', 'N')
        t = (sym('task', 'N', lt=NT),) if C.T else ()
        idx = [(i, NS)] + [(y, NT) for y in t]
        hidden = lambda v: C.nm(v)

        def agree(key, w, x, cons=(), sp=None):
            w, x = C.nm(w), C.nm(x)
            if not isinstance(w, Arr) or not isinstance(x, Arr):
                rep.und(key, C.loc, 'not arrays')
                return
            want = xdot(C, w, pairs, i, t)
            rep.res(key, C.loc, equal(x.at(i, *t), want, sp or C.space(cons), idx))
        names = ['iterations', 'passes', 'coordinates']
        pos = QQ
        for k, st in enumerate(C.S):
            sp = C.space()
            key = '%s:%s' % (C.tag, names[k])
            agree(key + ':start', st.w['init'], st.x['init'])
            if k == 2:
                sp = coord_space(C)
                agree_step = lambda w, x, key: agree(key, subst_q(C, w), subst_q(C, x), sp=sp)
                agree_step(st.w['step'], st.x['step'], key + ':step')
            else:
                agree(key + ':step', st.w['step'], st.x['step'])
            for what, lst in (('break', st.rec.exits), ('return', st.rec.returns)):
                for n, x in enumerate(lst):
                    agree('%s:%s%d' % (key, what, n), x['vals'][st.iw], x['vals'][st.ix], cons=[C.nm(x['c'])] if k < 2 else ())
        # every objective pairs coefficients with their model fit, every violation likewise
        seen = {}
        for st in C.S:
            terms = [(C.nm(x['c'])) for x in st.rec.exits + st.rec.returns]
            for lf in st.rec.leaves:
                for kk in ('step', 'init'):
                    if lf[kk] is not None:
                        terms.append(reify(C.nm(lf[kk])))
            for tm in terms:
                for x in walk(tm):
                    if x.op == 'add' and x not in seen:
                        dv = [y for y in x.args if y.op == 'app' and y.args[0] == 'dfval']
                        pv = [y for y in x.args if y.op == 'app' and y.args[0] == 'penval']
                        if len(dv) == 1 and len(pv) == 1 and len(dv[0].args) == 4 and len(pv[0].args) == 3:
                            seen[x] = (pv[0].args[2], dv[0].args[3])
        for n, (x, (we, xe)) in enumerate(seen.items()):
            w, xx = as_arr(we, M.shape_w), as_arr(xe, M.shape_x)
            if w is None or xx is None or any(b.op == 'bv' for b in free(we) | free(xe)):
                rep.und('%s:objective%d' % (C.tag, n), C.loc, 'arguments not closed')
                continue
            agree('%s:objective%d' % (C.tag, n), w, xx)
        grads_current(C, rep, pairs, lambda w, x, sp: equal(x.at(i, *t), xdot(C, w, pairs, i, t), sp, idx))
    both(api, rep, f)
    import maths
    maths.model_fits(api, rep, ('update', 'extrapolated'))


def as_arr(e, shape_):
    if e.op == 'lam':
        return Arr(e.args[1], e.args[0], e.args[2])
    if e.op in ('sym', 'app'):
        bv = [bvar(n, 'i') for n in shape_]
        return Arr(shape_, bv, elem(e, *bv))
    return None


def grads_current(C, rep, pairs, agree_res):
    """the model fit handed to every gradient is the one of the coefficients it is used with"""
    M = C.M
    n = 0
    outer = []
    for k, st in enumerate(C.S):
        sp = coord_space(C).with_(strata=None) if k == 2 else C.space()
        if k == 2:
            sp = sp.with_(strata=[('generic', None)])
        fix = (lambda v: subst_q(C, C.nm(v))) if k == 2 else C.nm
        ways = st.rec.exits + st.rec.returns
        if k == 2:
            cand = [st.w['phi']]
        else:
            cand = [st.w['phi'], C.S[k + 1].w['out'], st.w['step']] + [x['vals'][st.iw] for x in ways]
        cand = [fix(c) for c in cand]
        outer = outer + cand
        cs = []
        for c in cand:
            if not any(canon(reify(c)) is canon(reify(d)) for d in cs):
                cs.append(c)
        cs_old = cs + [c for c in outer if not any(canon(reify(c)) is canon(reify(d)) for d in cs)]
        terms = [fix(x['c']) for x in ways]
        for l in st.rec.leaves:
            for kk in ('step', 'init') if k < 2 else ('step',):
                if l[kk] is not None and isinstance(l[kk], (E, Arr)):
                    terms.append(reify(fix(l[kk])))
        uses = {}
        for tm in terms:
            inner = set()
            for d in apps(tm, 'dist'):
                if len(d.args) == 4:
                    for g in apps(d.args[3], 'grad'):
                        if len(g.args) == 5:
                            uses[(canon_keep(d.args[2]), g)] = d.args[2]
                            inner.add(g)
            for g in apps(tm, 'grad'):
                if g not in inner and len(g.args) == 5:
                    uses[(None, g)] = None
        done = set()
        for (_, g), we in uses.items():
            kx = (canon(g.args[3]), None if we is None else canon(we))
            if kx in done:
                continue
            done.add(kx)
            key = '%s:%s:gradient%d' % (C.tag, ('iterations', 'passes', 'coordinates')[k], len(done) - 1)
            xs = as_arr(g.args[3], M.shape_x)
            if xs is None or any(b.op == 'bv' for b in free(g.args[3])):
                rep.und(key, C.loc, 'the model fit depends on a position')
                continue
            outcomes = []
            for c in (cs if we is None else cs_old):
                r = agree_res(c, xs, sp)
                if r.status == 'held' and we is not None:
                    r2 = row_is(C, we, c, g.args[4], sp)
                    outcomes.append(r2)
                else:
                    outcomes.append(r)
                if outcomes[-1].status == 'held':
                    break
            if any(r.status == 'held' for r in outcomes):
                rep.ok(key, C.loc)
            elif all(r.status == 'violated' for r in outcomes):
                rep.bad(key, C.loc, 'a gradient is evaluated at a model fit that is not the design matrix times the coefficients it goes with: %s; %s' % (
                    show(g.args[3])[:200], outcomes[0].detail[:300]))
            else:
                rep.und(key, C.loc, [r.detail for r in outcomes if r.status == 'undecided'][0][:300])
            n += 1
    rep.count('gradient sites', n)


def canon_keep(e):
    return canon(e) if isinstance(e, E) else e


def row_is(C, we, c, j, sp):
    """is the coefficient (row) `we` entry j of the array c?"""
    bs = [b for b in free(we) | free(j) if b.op == 'bv']
    m = {}
    idx = []
    for b in bs:
        s_ = sym('bound:%d' % len(m), 'N')
        m[b] = s_
        n = BV_N.get(b)
        if n is None or any(z.op == 'bv' for z in free(n)):
            return Res('undecided', 0, 'open range')
        idx.append((s_, n))
    we, j = subst(we, m), subst(j, m)
    if not C.M.multi:
        return equal(we, c.at(j), sp, idx)
    wa = as_arr(we, (NT,))
    if wa is None:
        return Res('undecided', 0, 'not a row')
    t = sym('task', 'N', lt=NT)
    return equal(wa.at(t), c.at(j, t), sp, idx + [(t, NT)])


def subst_q(C, v):
    q = C.S[2].rec.q
    return vmap(v, lambda e: subst(e, {q: QQ})) if q is not None else v


def coord_space(C):
    """one coordinate update: position within the working set, with and without curvature, with and without a change"""
    M, st = C.M, C.S[2]
    sp = C.space([ilt(QQ, C.nm(C.size))])
    sp.scal[QQ] = [0, 0, 1, 2, 3]
    L = mk('app', LIP, M.DF)
    j = elem(WSY, QQ)

    def flat(e):
        return replace(e, {elem(L, j): ZERO})
    strata = [('curvature', None), ('no curvature', flat)]
    return sp.with_(strata=strata)


# ------------------------------------------------------------------ S04
def S04(api, rep):
    def f(C, rep):
        M = C.M
        st0, st2 = C.S[0], C.S[2]
        w, x = C.nm(st0.w['phi']), C.nm(st0.x['phi'])
        sp = C.space()
        wn = w
        b = bvar(NF, 'j')
        nz = not_(feq(wn.at(b), ZERO)) if not M.multi else any_row(wn, b)
        nnz = sum_(b, NF, sel(nz, ONE, ZERO))
        size = C.nm(C.size)
        want = imax(imin(WS0, NF), imin(mul(num(2), nnz), NF))
        rep.res('%s:size' % C.tag, C.loc, equal(size, want, sp))
        srts = list(C.ws.values())
        if len(srts) == 2:
            # one sort of what another sort produced: the last one decides the order the features come in
            a, b_ = srts
            ina, inb = canon(b_) in set(map(canon, apps(a, 'sorted'))), canon(a) in set(map(canon, apps(b_, 'sorted')))
            if ina != inb:
                last = a if ina else b_
                inner = b_ if ina else a
                cm = C.nm(last.args[2]) if last.args[2].op == 'lam' else None
                if cm is not None and cm.args[2].op == 'tup' and len(cm.args[2].args) == 2:
                    u, v = sym('feature u', 'N'), sym('feature v', 'N')

                    def viol(j):
                        n = any_row(w, j) if M.multi else not_(feq(w.at(j), ZERO))
                        return sel(n, INF, M.dist(w, x, j))
                    # (it compares positions of the inner order: u and v are the features there)
                    lt = replace(C.nm(subst(cm.args[2].args[0], dict(zip(cm.args[0], (u, v))))), {elem(WSY, u): u, elem(WSY, v): v})
                    # (coarser keys keep what the first sort did, if stable: only the opposite order is certainly wrong)
                    r = equal(and_(lt, flt(viol(u), viol(v))), FALSE, C.space([not_(ieq(u, v))]), [(u, NF), (v, NF)])
                    if r.status == 'violated':
                        rep.bad('%s:order' % C.tag, C.loc, 'the features of the working set are sorted again, not by decreasing violation: %s' % r.detail)
                        return
        if len(C.ws) != 1:
            rep.und('%s:order' % C.tag, C.loc, '%d sorted orders are used' % len(C.ws))
            return
        srt = srts[0]
        base, cmp_ = srt.args[1], srt.args[2]
        i = sym('position', 'N')
        bs = as_arr(base, (NF,))
        if bs is None:
            rep.und('%s:candidates' % C.tag, C.loc, 'candidates are %s' % show(base)[:200])
        else:
            rep.res('%s:candidates are all features' % C.tag, C.loc, equal(bs.shape[0], NF, sp))
            rep.res('%s:candidates in order' % C.tag, C.loc, equal(bs.at(i), i, sp, [(i, NF)]))
        u, v = sym('feature u', 'N'), sym('feature v', 'N')

        def key(j):
            n = any_row(w, j) if M.multi else not_(feq(w.at(j), ZERO))
            return sel(n, INF, M.dist(w, x, j))
        if cmp_.op == 'lam' and cmp_.args[2].op == 'tup' and len(cmp_.args[2].args) == 2:
            lt, gt = (C.nm(subst(y, dict(zip(cmp_.args[0], (u, v))))) for y in cmp_.args[2].args)
            idx = [(u, NF), (v, NF)]
            # (the distance of a feature to itself may differ in the sample: u != v)
            s2 = C.space([not_(ieq(u, v))])
            ne = not_(feq(key(u), key(v)))

            def order(got, want):
                # (features of equal violation may come in any order)
                r = equal(got, want, sp, idx)
                return r if r.status == 'held' else equal(and_(ne, got), want, sp, idx)
            rep.res('%s:u before v exactly if the violation of u is larger' % C.tag, C.loc, order(lt, flt(key(v), key(u))))
            rep.res('%s:u after v exactly if the violation of u is smaller' % C.tag, C.loc, order(gt, flt(key(u), key(v))))
            rep.res('%s:u before v exactly if v after u' % C.tag, C.loc, equal(lt, subst(gt, {u: v, v: u}), s2, idx))
        else:
            rep.und('%s:comparator' % C.tag, C.loc, show(cmp_)[:200])
        # the coordinates visited are the first `size` of that order
        js = updated(C)
        if len(js) != 1:
            rep.und('%s:visited' % C.tag, C.loc, '%d features are updated per step' % len(js))
            return
        j = list(js)[0]
        q = st2.rec.q
        pos = [x.args[1] for x in walk(j) if x.op == 'elem' and x.args[0] is WSY]
        key_ = '%s:visited coordinates' % C.tag
        if len(pos) == 1 and j.op == 'elem':
            sp2 = C.space([ilt(QQ, size)])
            sp2.scal[QQ] = [0, 0, 1, 2, 3]
            at = pos[0]
            if holds_eq(at, QQ, sp2):
                rep.ok(key_, C.loc)
            elif holds_eq(at, sub(sub(size, ONE), QQ), sp2):
                rep.ok(key_, C.loc, 'in reverse order')
            else:
                # a position beyond the size, or one missed
                bad, hit = refute(sp2, [], ilt(at, size))
                if bad:
                    rep.bad(key_, C.loc, 'features outside the first %s of the order are visited: position %s (%s)' % (show(size)[:100], show(at), bad))
                else:
                    r = equal(at, QQ, sp2)
                    rep.und(key_, C.loc, r.detail)
        else:
            r = equal(j, elem(WSY, QQ), C.space([ilt(QQ, size)]), [(QQ, size)])
            if r.status == 'violated' and not state_syms(j):
                rep.bad(key_, C.loc, 'the features visited are not those of the order: %s' % r.detail)
            else:
                rep.und(key_, C.loc, 'visits %s' % show(j)[:200])
    both(api, rep, f)


def any_row(w, j):
    t = bvar(NT, 't')
    return any_(t, NT, not_(feq(w.at(j, t), ZERO)))


def updated(C):
    """features whose coefficient one step of the coordinate loop changes"""
    st = C.S[2]
    w = subst_q(C, C.nm(st.w['step']))
    out = set()
    b = w.bvs[0]
    for x in walk(reify(w.body)):
        if x.op == 'eq' and b in free(x):
            for p, q in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                j = solve_for(b, p, q)
                if j is not None:
                    out.add(canon(j))
    return out


# ------------------------------------------------------------------ S05 (on the nest; the rest of the rule set is in effects.py)
def upper(n, bound, sp, depth=0):
    """n <= bound by its structure"""
    if canon(n) is canon(bound) or (sp is not None and holds_eq(n, bound, sp)):
        return True
    if depth > 5:
        return False
    if n.op == 'imin':
        return any(upper(a, bound, sp, depth + 1) for a in n.args)
    if n.op == 'imax':
        return all(upper(a, bound, sp, depth + 1) for a in n.args)
    if n.op == 'sel':
        c, a, b = n.args
        return (says_le(c, a, bound) or upper(a, bound, sp, depth + 1)) and (says_le(not_(c), b, bound) or upper(b, bound, sp, depth + 1))
    return lower(sub(bound, n)) is not None and lower(sub(bound, n)) >= 0


def says_le(c, a, bound):
    for l in conj(c):
        q = cmp_parts(l)
        if q and canon(q[1]) is canon(a) and canon(q[2]) is canon(bound):
            return True
    return False


def at_most(C, rep, key, n, bound, sp, idx=()):
    if n is None:
        rep.und(key, C.loc, 'no trip count')
        return
    if upper(n, bound, sp):
        rep.ok(key, C.loc)
        return
    bad, hit = refute(sp, [], ile(n, bound))
    if bad is not None and not foreign_state(C, [n]):
        rep.bad(key, C.loc, 'up to %s rounds, more than %s (%s)' % (show(n)[:200], show(bound)[:100], bad))
    else:
        rep.und(key, C.loc, 'trip count %s' % show(n)[:200])


def S05_nest(C, rep):
    M = C.M
    st0, st1, st2 = C.S
    sp = C.space()
    size = C.nm(C.size)
    for k, (st, bound, what) in enumerate(((st0, MAXIT, 'iterations'), (st1, MAXEP, 'passes'))):
        key = '%s:%s' % (C.tag, what)
        if st.rec.n is None:
            bounded_while(C, rep, key, st, bound)
        else:
            at_most(C, rep, key, C.nm(st.rec.n), bound, sp)
    # one visit per feature: the visited positions are distinct
    js = updated(C)
    if st2.rec.n is None or len(js) != 1:
        rep.und('%s:updates of a pass' % C.tag, C.loc, '%d updated features' % len(js))
    else:
        j = list(js)[0]
        if j.op == 'elem' and j.args[0] is WSY and QQ in free(j):
            d = expand(j.args[1])
            k = lin(d)[0].get(QQ)
            if k is not None and abs(k) == 1 and not any(QQ in free(m) for m in lin(d)[0] if m is not QQ):
                rep.ok('%s:updates of a pass' % C.tag, C.loc)
            else:
                # two rounds at the same position?
                q2 = sym('other position', 'N')
                s2 = C.space([ilt(QQ, size), ilt(q2, C.nm(st2.rec.n)), ilt(QQ, q2)])
                s2.scal[QQ] = s2.scal[q2] = [0, 1, 2, 3]
                bad, hit = refute(s2, [], not_(ieq(d, subst(d, {QQ: q2}))))
                (rep.bad if bad else rep.und)('%s:updates of a pass' % C.tag, C.loc, 'positions visited: %s %s' % (show(d)[:200], bad or ''))
        else:
            rep.und('%s:updates of a pass' % C.tag, C.loc, 'visits %s' % show(j)[:200])
        at_most(C, rep, '%s:length of a pass' % C.tag, C.nm(st2.rec.n), NF, sp)
    extra = [l for l in st1.rec.children if l is not st2.rec and any(is_shape(leaf_shape(lf), M.shape_w) for lf in l.leaves)]
    rep.check('%s:one update loop per pass' % C.tag, C.loc, not extra, 'a second loop changes coefficients in a pass')
    # zero budgets: nothing but the initial zeros can come out of a loop that runs zero rounds
    for p, r in equal_val(C.nm(st0.w['init']), zeros(M.shape_w), sp):
        rep.res('%s:zero budget%s' % (C.tag, p), C.loc, r)


def leaf_syms(v):
    """symbols that stand for (parts of) a loop-carried value"""
    return {x for x in walk(reify(v)) if x.op == 'sym'}


def dep_graph(M):
    """loop symbol -> expressions it is computed from (its initial value, its transfer, the exits of its loop)"""
    g = {}
    for rec in M.I.loops:
        common = [x['c'] for x in rec.exits + rec.returns] + ([rec.n] if rec.n is not None else []) + list(rec.pc)
        for k, lf in enumerate(rec.leaves):
            vals = [reify(x['vals'][k]) for x in rec.exits + rec.returns if k < len(x['vals']) and x['vals'][k] is not None]
            d = [reify(lf[n]) for n in ('init', 'step') if lf[n] is not None] + common + vals
            for n in ('phi', 'out'):
                if lf[n] is None:
                    continue
                for s_ in leaf_syms(lf[n]):
                    if s_.args[0].split(':')[0] in ('phi', 'out', 'loopret', 'havoc'):
                        g.setdefault(s_, []).extend(d)
        if getattr(rec, 'q', None) is not None:
            g.setdefault(rec.q, [])
    return g


def depends(M, *vals):
    """every symbol the values can depend on, through the loop records"""
    g = getattr(M, '_deps', None)
    if g is None:
        g = M._deps = dep_graph(M)
    seen, todo = set(), list(vals)
    done = set()
    while todo:
        e = reify(todo.pop())
        if e in done:
            continue
        done.add(e)
        for x in walk(e):
            if x.op in ('sym', 'bv') and x not in seen:
                seen.add(x)
                todo.extend(g.get(x, ()))
            elif x.op == 'top' and x not in seen:
                seen.add(x)
    return seen


def leaves_by(c, q, bound):
    """is the exit condition c certainly true once q has reached `bound`?"""
    for d in disj(c):
        ls = conj(d)
        if len(ls) != 1:
            continue
        l = ls[0]
        p = None
        if l.op == 'lt':
            p = (l.args[0], l.args[1], 1)
        elif l.op == 'not' and l.args[0].op == 'lt':
            p = (l.args[0].args[1], l.args[0].args[0], 0)
        elif l.op == 'eq':
            e = expand(sub(l.args[0], l.args[1]))
            k = lin(e)[0].get(q)
            if k is not None and abs(k) == 1 and not any(q in free(m) for m in lin(e)[0] if m is not q):
                at = expand(sub(q, e) if k == 1 else add(q, e))       # leaves when q == at
                if upper(at, bound, None) and lower(at) is not None and lower(at) >= 0:
                    return True
            continue
        if p is None:
            continue
        e = expand(sub(add(p[0], num(p[2])), p[1]))         # leaves when e <= 0; e must not grow with q
        k = lin(e)[0].get(q)
        if k is None or k > 0 or any(q in free(m) for m in lin(e)[0] if m is not q):
            continue
        if upper(expand(subst(e, {q: bound})), ZERO, None):
            return True
    return False


def bounded_while(C, rep, key, st, bound):
    """`while`/`loop`/endless iterator: some exit must be taken at round `bound` at the latest"""
    q = IT if st is C.S[0] else EP
    raw = [x['c'] for x in st.rec.exits + st.rec.returns]
    conds = [C.nm(c) for c in raw]
    for c in conds:
        if not state_syms(c) and leaves_by(c, q, bound):
            rep.ok(key, C.loc, 'leaves under %s' % show(c)[:200])
            return
    dep = depends(C.M, *raw)
    if bound not in dep:
        rep.bad(key, C.loc, 'nothing the exits of this loop depend on is bounded by %s: %s' % (show(bound), [show(c)[:200] for c in conds]))
        return
    idle = idle_round(C, st, q, raw)
    if idle is not None:
        rep.bad(key, C.loc, 'a round can leave every counter and flag the exits depend on as it was (%s), so %s does not bound the rounds: exits %s' % (
            idle, show(bound), [show(c)[:200] for c in conds]))
        return
    sp = C.space([ile(bound, q), ile(q, add(bound, ONE))])
    vals = [0, 1, 2, 3, 5, 10, 49, 50, 51, 99, 100, 101, 200, 1000]
    sp.scal[bound] = vals
    sp.scal[q] = lambda r: r.choice(vals) + r.choice((0, 0, 1))
    # exits that compare run-time numbers cannot be relied on for a bound
    firm = [c for c in conds if not any(x.op in ('flt', 'fle', 'feq') and state_syms(x) for x in walk(c))]
    foreign = set().union(set(), *[foreign_state(C, [c], C.nm(st.w['phi']), C.nm(st.x['phi'])) for c in firm])
    bad, hit = refute(sp, [], or_(*firm)) if firm else ('no exit counts rounds', 1)
    if bad is not None and not foreign:
        rep.bad(key, C.loc, 'no exit is taken in round %s or later although the budget is spent: exits %s (%s)' % (show(bound), [show(c)[:200] for c in conds], bad))
    else:
        rep.und(key, C.loc, 'exit conditions %s' % [show(c)[:200] for c in conds])


def idle_round(C, st, q, raw):
    """a round that is not the last and changes no integer or boolean state the exits depend on: a sample, or None"""
    M, rec = C.M, st.rec
    dep = depends(M, *raw)
    if rec.q in dep or q in dep or not raw:
        return None
    same = []
    n = 0
    for lf in rec.leaves:
        ph, stp = lf['phi'], lf['step']
        if stp is None or not isinstance(ph, E):
            continue
        discrete = ph.op == 'sym' and ph.args[1] in ('N', 'B', 'I', 'Z')
        if not discrete or ph not in dep:
            continue
        n += 1
        a, b = C.nm(ph), C.nm(reify(stp))
        same.append(or_(and_(a, b), and_(not_(a), not_(b))) if ph.args[1] == 'B' else ieq(a, b))
    if not n:
        return None
    stay = not_(or_(*[C.nm(c) for c in raw]))
    vals = [0, 1, 2, 3, 5, 10, 49, 50, 51, 99, 100, 101, 200, 1000]
    sp = C.space([])
    for x in dep:
        if x.op == 'sym' and x.args[1] in ('N', 'I', 'Z') and x not in sp.scal:
            sp.scal[x] = vals
    w, hit = refute(sp, [stay], not_(and_(*same)), n=1500)
    return w


def zeros(shape_):
    return mkarr(shape_, lambda *i: ZERO)


# ------------------------------------------------------------------ S08 (solver part)
def S08_nest(C, rep):
    M = C.M
    sp = C.space()
    st0 = C.S[0]
    for p, r in equal_val(C.nm(st0.w['init']), zeros(M.shape_w), sp):
        rep.res('%s:start coefficients%s' % (C.tag, p), C.loc, r)
    for p, r in equal_val(C.nm(st0.x['init']), zeros(M.shape_x), sp):
        rep.res('%s:start model fit%s' % (C.tag, p), C.loc, r)
    # the datafit as it was handed in is read by its initialisation only
    terms = [M.result]
    for l in M.I.loops:
        terms += [lf[k] for lf in l.leaves for k in ('init', 'step') if lf[k] is not None]
        terms += [x['c'] for x in l.exits + l.returns] + [v for x in l.exits + l.returns for v in x['vals']]
    bad = None
    seen = set()

    def scan(e, in_init):
        if (e, in_init) in seen:
            return None
        seen.add((e, in_init))
        if e is DF0 and not in_init:
            return e
        if e.op == 'app' and e.args[0] == 'init':
            for a in e.args[1:]:
                r = scan(a, True) if isinstance(a, E) else None
            return None
        for a in children(e):
            r = scan(a, in_init)
            if r is not None:
                return e if r is DF0 else r
        return None
    for t in terms:
        for e in ([reify(t)] if not isinstance(t, E) else [t]):
            bad = bad or scan(e, False)
    rep.check('%s:the datafit is initialised before it is used' % C.tag, C.loc, bad is None, '' if bad is None else 'used as handed in: %s' % show(bad)[:300])
    inits = set()
    for t in terms:
        inits |= set(apps(t, 'init'))
    for n, e in enumerate(sorted(inits, key=lambda e: e.id)):
        okk = len(e.args) == 3 and e.args[1] in (DF0, M.DF) and canon(e.args[2]) is M.dse
        rep.check('%s:initialised on the dataset of this solve' % C.tag, C.loc, okk, show(e)[:200])
    for p, r in equal_val(M.dfstate, M.DF, sp):
        rep.res('%s:datafit state after the solve%s' % (C.tag, p), C.loc, r)


# ------------------------------------------------------------------ S09
def S09(api, rep):
    def f(C, rep):
        M = C.M
        st1, st2 = C.S[1], C.S[2]
        w, x = C.nm(st2.w['phi']), C.nm(st2.x['phi'])
        js = updated(C)
        key = '%s:coordinate step' % C.tag
        new = subst_q(C, C.nm(st2.w['step']))
        if len(js) != 1:
            rep.und(key, C.loc, '%d features change in one step: %s' % (len(js), [show(j)[:80] for j in js]))
        else:
            j = list(js)[0]
            sp = coord_space(C)
            L = M.lip(j)
            step = div(ONE, L)
            b = sym('feature', 'N')
            if not M.multi:
                z = sub(w.at(j), div(M.grad(x, j), L))
                pr = mk('app', 'prox', PENS, canon(z), canon(step))
                want = sel(feq(L, ZERO), w.at(b), sel(ieq(b, j), pr, w.at(b)))
                rep.res(key, C.loc, equal(new.at(b), want, sp, [(b, NF)]))
            else:
                g = M.grad(x, j)
                z = canon(reify(mkarr((NT,), lambda t: sub(w.at(j, t), div(elem(g, t), L)))))
                pr = mk('app', 'prox', PENS, z, canon(step))
                t = sym('task', 'N', lt=NT)
                want = sel(feq(L, ZERO), w.at(b, t), sel(ieq(b, j), elem(pr, t), w.at(b, t)))
                rep.res(key, C.loc, equal(new.at(b, t), want, sp, [(b, NF), (t, NT)]))
        # between passes and iterations the coefficients are handed on as they are
        sp = C.space()
        for nm_, a, bb in (('pass starts from the current coefficients', st2.w['init'], st1.w['phi']),
                           ('pass starts from the current model fit', st2.x['init'], st1.x['phi']),
                           ('subproblem starts from the current coefficients', st1.w['init'], C.S[0].w['phi']),
                           ('subproblem starts from the current model fit', st1.x['init'], C.S[0].x['phi'])):
            for p, r in equal_val(C.nm(a), C.nm(bb), sp):
                rep.res('%s:%s%s' % (C.tag, nm_, p), C.loc, r)
        # a pass visits every position of its list
        for n, e in enumerate(st2.rec.exits + st2.rec.returns):
            bad, hit = refute(coord_space(C).with_(strata=None), [subst_q(C, C.nm(e['c']))], FALSE)
            if bad is not None and not foreign_state(C, [C.nm(e['c'])]):
                rep.bad('%s:pass cut short %d' % (C.tag, n), C.loc, 'a pass ends before its last feature under %s' % show(C.nm(e['c']))[:300])
            else:
                rep.und('%s:pass cut short %d' % (C.tag, n), C.loc, show(C.nm(e['c']))[:300])
    both(api, rep, f)


# ------------------------------------------------------------------ S10
def S10(api, rep):
    def f(C, rep):
        M = C.M
        st1, st2 = C.S[1], C.S[2]
        sp = C.space()
        size = C.nm(C.size)
        ways = adopted(C)
        acc = [(pc, w, x) for pc, w, x, cw, cx in ways if cw]
        key = C.tag
        if len(acc) != 1:
            # none: acceleration is gone; several: not the documented shape
            if not acc:
                if all(base_sym(w) is base_sym(st2.w['out']) for _, w, _, _, _ in ways):
                    rep.bad(key + ':attempted', C.loc, 'no pass ever adopts an extrapolated point')
                else:
                    rep.und(key + ':attempted', C.loc, 'unrecognised')
            else:
                rep.und(key + ':attempted', C.loc, '%d adopting cases' % len(acc))
            return
        pc, w, x = acc[0]
        # the store of iterates: the state array the extrapolation reads besides the coefficients
        own = {base_sym(l[k]) for st in C.S for l in (st.w, st.x) for k in ('phi', 'out')}
        store = [s for s in state_syms(w) if s.op == 'sym' and s.args[1] == 'A' and s not in own]
        leaf = [l for l in st1.rec.leaves if base_sym(l['phi']) in store]
        if len(leaf) != 1:
            rep.und(key + ':store', C.loc, 'the extrapolation reads %d stored arrays' % len(leaf))
            return
        leaf = leaf[0]
        phi, new = C.nm(leaf['phi']), C.nm(leaf['step'])
        if not isinstance(new, Arr) or new.ndim not in (2, 3):
            rep.und(key + ':store', C.loc, 'store of unknown form')
            return
        r_, q_, t_ = sym('row', 'N'), sym('position', 'N'), sym('task', 'N', lt=NT)
        one = not M.multi
        lays = [('by feature', lambda q, t: (q,) if one else (add(mul(q, NT), t),), size if one else mul(size, NT)),
                ('by task', lambda q, t: (add(mul(t, size), q),), mul(size, NT))] if new.ndim == 2 else \
            [('matrix', lambda q, t: (q, t), None), ('matrix', lambda q, t: (t, q), None)]
        cur = C.nm(st2.w['out'])
        idx = [(r_, add(KK, ONE)), (q_, size)] + ([] if one else [(t_, NT)])
        for p, z in (('rows', (new.shape[0], add(KK, ONE))),):
            rep.res(key + ':store ' + p, C.loc, equal(z[0], z[1], sp))
        lay = None
        res = []
        for name, L, wd in lays:
            cell = L(q_, t_)
            val_ = cur.at(elem(WSY, q_)) if one else cur.at(elem(WSY, q_), t_)
            old = phi.at(r_, *cell)
            want = sel(ACC, sel(ieq(imod(EP, add(KK, ONE)), r_), val_, old), old)
            # without acceleration nothing needs to be stored
            sp_acc = C.space([ACC, ilt(q_, size)])
            r = equal(new.at(r_, *cell), want, sp_acc, idx)
            res.append(r)
            if r.status == 'held':
                lay = (name, L, wd)
                break
        if lay is None:
            if all(r.status == 'violated' for r in res):
                rep.bad(key + ':stored iterates', C.loc, 'row (epoch mod K+1) of the store is not the current working-set coefficients, or other rows change: %s' % res[0].detail[:600])
            else:
                rep.und(key + ':stored iterates', C.loc, [r.detail for r in res if r.status != 'violated'][0][:300])
            return
        rep.ok(key + ':stored iterates', C.loc, 'stored ' + lay[0], cells=res[-1].cells)
        name, L, wd = lay
        # the full extrapolated array
        width = new.shape[1:] if new.ndim == 2 else None
        if width is None:
            rep.und(key + ':extrapolated point', C.loc, 'store of rank 3')
            return
        m = new.shape[1]
        U = lambda a, c: sub(new.at(add(a, ONE), c), new.at(a, c))
        Cm = canon(reify(mkarr((KK, KK), lambda a, b: (lambda c: sum_(c, m, mul(U(a, c), U(b, c))))(bvar(m, 'c')))))
        ones = canon(reify(mkarr((KK,), lambda a: ONE)))
        z = mk('app', 'solve', Cm, ones)
        k1, k2 = bvar(KK, 'k'), bvar(KK, 'k')
        tot = sum_(k1, KK, elem(z, k1))

        def pt(q, t):
            return sum_(k2, KK, mul(div(elem(z, k2), tot), new.at(k2, *L(q, t))))
        accepted = [l for l in pc if any(a.args[0] in ('dfval', 'penval') for a in walk(l) if a.op == 'app')
                    and not any(a is l for a in ())]
        accepted = [l for l in accepted if cmp_parts(l) and apps(cmp_parts(l)[1], 'dfval') and apps(cmp_parts(l)[2], 'dfval')]
        cond = and_(ACC, ieq(imod(EP, add(KK, ONE)), KK), mk('app', 'solvable', Cm, ones), *accepted)
        b, t = sym('feature', 'N'), sym('task', 'N', lt=NT)
        base = cur.at(b) if one else cur.at(b, t)
        q = bvar(size, 'q')
        pnt = scat_(q, size, ieq(b, elem(WSY, q)), pt(q, t), ZERO)
        want = sel(cond, pnt, base)
        got = C.nm(st1.w['step'])
        got = got.at(b) if one else got.at(b, t)
        acc_true = {l: TRUE for l in accepted}
        # the acceptance test belongs to S02: assumed passed here
        ix = [(b, NF)] + ([] if one else [(t, NT)])
        g2 = replace(got, {**acc_true, **{not_(l): FALSE for l in accepted}}) if accepted else got
        w2 = replace(want, acc_true) if accepted else want
        rep.res(key + ':extrapolated point', C.loc, equal(g2, w2, C.space(), ix))
        when = and_(*[l for l in pc if l not in accepted and not apps(l, 'solvable')])
        want_when = and_(ACC, ieq(imod(EP, add(KK, ONE)), KK))
        rep.res(key + ':when', C.loc, equal(when, want_when, C.space()))
    both(api, rep, f)
    # ... and solves the system it forms
    import linsys
    linsys.M10(api, rep)


def S05(api, rep):
    import effects
    both(api, rep, S05_nest)
    effects.S05_graph(api, rep)


def S08(api, rep):
    import maths
    both(api, rep, S08_nest)
    maths.S08_datafits(api, rep)
