"""Models of the library functions (core, alloc, num_traits, ndarray) the analysed crates use."""
from fractions import Fraction
from expr import *
from values import *
from prog import tname
import interp as _i
from interp import Dead, strip_ref, is_int_ty, is_bool_ty, arr_ndim, arr_elem_ty, INT_PRIMS

NI = NotImplemented
OPT = 'core::option::Option'
RES = 'core::result::Result'
ORD = 'core::cmp::Ordering'
LESS, EQUAL, GREATER = Adt(ORD, 'Less', {}), Adt(ORD, 'Equal', {}), Adt(ORD, 'Greater', {})
CF = 'core::ops::control_flow::ControlFlow'


# ------------------------------------------------------------------ iterators
def seq_merge(I, c):
    a, b = to_seq(I, c.a), to_seq(I, c.b)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.random and b.random:
        if expand(sub(a.n, b.n)) is ZERO:
            return Seq(a.gens, merge(c.c, a.value, b.at(a.gens[0][0])))
        return seq_of(sel(c.c, a.n, b.n), lambda q: merge(c.c, a.at(q), b.at(q)))
    return c


def iter_rest(I, it):
    s, pos = it.fields['seq'], it.fields['pos']
    if pos is ZERO:
        return s
    if isinstance(s, Seq) and s.random:
        return seq_of(sub(s.n, pos), lambda q: s.at(add(q, pos)))
    return s


def mono_pair(e, s):
    """both elements of the same monotone index array, in order"""
    def base(x):
        while x.op == 'int':
            x = x.args[0]
        return x
    e, s = base(e), base(s)
    if e.op == 'elem' and s.op == 'elem' and e.args[0] is s.args[0] and len(e.args) == 2:
        if SYM_INFO.get(e.args[0], {}).get('mono') or e.args[0].op in ('fld', 'sym', 'app'):
            lo = lower(sub(e.args[1], s.args[1]))
            return lo is not None and lo >= 0
    return False


def range_len(lo, hi):
    d = sub(hi, lo)
    lw = lower(d)
    if lw is not None and lw >= 0:
        return d
    if mono_pair(hi, lo):
        return mk('int', d, 'N') if not isint(d) else mk('int', d, 'N')
    d2 = expand(neg(d))
    lw = lower(d2)
    if lw is not None and lw >= 0:
        return ZERO
    return sub(imax(hi, lo), lo)


def to_seq(I, v):
    if isinstance(v, MutRef):
        w = I.read(v)
        if isinstance(w, Arr):
            return arr_iter_mut(I, v, w)
        if isinstance(w, Adt) and w.path == '#iter':
            return iter_rest(I, w)
        v = w
    if isinstance(v, Seq):
        return v
    if isinstance(v, Cond):
        return seq_merge(I, v)
    if isinstance(v, Adt):
        if v.path == '#iter':
            return iter_rest(I, v)
        if v.path == '#zip':
            return zip_seq(I, v)
        p = v.path.split('::')[-1]
        if p in ('Range', 'RangeInclusive'):
            lo, hi = I.force(v.fields['start']), I.force(v.fields['end'])
            if p == 'RangeInclusive':
                hi = add(hi, ONE)
            if isinstance(lo, E) and isinstance(hi, E):
                return seq_of(range_len(lo, hi), lambda q: add(lo, q))
        if p == 'RangeFrom':
            lo = I.force(v.fields['start'])
            if isinstance(lo, E):
                return seq_of(INFN, lambda q: add(lo, q))
        if p == 'Option':
            if v.variant == 'Some':
                return seq_of(ONE, lambda q: v.fields['0'])
            return seq_of(ZERO, lambda q: ZERO)
    if isinstance(v, Arr):
        return arr_iter(v)
    return v


def arr_iter(a):
    if a.ndim == 1:
        b = bvar(a.shape[0], 'q')
        return Seq([(b, a.shape[0])], a.at(b))
    bs = [bvar(s, 'q') for s in a.shape]
    return Seq(list(zip(bs, a.shape)), a.at(*bs))


def arr_iter_mut(I, ref, a):
    bs = [bvar(s, 'q') for s in a.shape]
    return Seq(list(zip(bs, a.shape)), ref.sub(('i', tuple(bs))))


def flat1(I, s):
    """a single-generator version of a sequence (constant inner length)"""
    if s.random or s.cond is not TRUE:
        return s
    gens = list(s.gens)
    val_ = s.value
    while len(gens) > 1:
        (b1, n1), (b2, n2) = gens[-2], gens[-1]
        if b1 in free(n2):
            return s
        n = mul(n1, n2)
        k = bvar(n, 'k')
        val_ = vsubst(val_, {b1: idiv(k, n2), b2: imod(k, n2)})
        gens = gens[:-2] + [(k, n)]
    return Seq(gens, val_)


def seq_map(I, s, f, site=None):
    """evaluate f on the generic element"""
    st0, pc0 = I.st, list(I.pc)
    if s.cond is not TRUE:
        I.pc = pc0 + [s.cond]
    st_before = dict(st0)
    I.st = dict(st0)
    ne, nl, nu, nc = len(I.effects), len(I.loops), len(I.unknown), len(I.loop_log)
    try:
        v = f(s.value)
    except Dead:
        I.st, I.pc = st0, pc0
        lo = and_(*[ilt(ZERO, n) for _, n in s.gens])
        if lo is TRUE and s.cond is TRUE:
            raise
        return Seq([(bvar(ZERO, 'q'), ZERO)], UNIT)
    changed = [c for c in st0 if I.st.get(c) is not st0.get(c)]
    if changed:
        # stateful closure: run as a loop that pushes the results
        I.st, I.pc = st0, pc0
        del I.effects[ne:], I.loops[nl:], I.unknown[nu:], I.loop_log[nc:]
        cell = I.new_cell(Arr([ZERO], [bvar(ZERO, 'i')], ZERO), 'acc')

        def body(x):
            r = f(x)
            push(I, MutRef(cell), r)
        I.run_seq(s, body, (), site or I.site)
        return to_seq(I, I.st[cell])
    # cells created by the evaluation stay readable (references inside the values)
    I.pc = pc0
    return Seq(s.gens, v, s.cond)


def to_array(I, s, want=None):
    """materialise a sequence as a 1-d array / Vec"""
    if isinstance(s, Seq):
        s = flat1(I, s)
        v = s
        if s.random:
            b, n = s.gens[0]
            return Arr([n], [b], deref_all(I, s.value))
        e = reify(s, I)
        n = mk('app', 'count', e)
        n = mk('int', n, 'N')
        t = mk('app', 'filtered', e)
        SYM_INFO.setdefault(t, {})['shape'] = (n,)
        return mkarr([n], lambda i: elem(t, i))
    return s


def deref_all(I, v):
    if isinstance(v, MutRef):
        return deref_all(I, I.read(v))
    if isinstance(v, Tup):
        return Tup([deref_all(I, x) for x in v.items])
    if isinstance(v, Seq):
        return v
    return v


def guard_pc(I):
    return list(I.pc)


def seq_sum(I, s, zero=ZERO):
    def inner(v):
        return v if isinstance(v, E) else None
    v = deref_all(I, s.value)
    if not isinstance(v, E):
        return None
    v = sel(s.cond, v, ZERO)
    for b, n in reversed(s.gens):
        v = sum_(b, n, v)
    return v


def seq_any(I, s, f):
    """exists element with f(x)"""
    s2 = seq_map(I, s, f)
    v = I.force(s2.value)
    if not isinstance(v, E):
        v = reify(v, I)
    v = and_(s2.cond, v)
    for b, n in reversed(s2.gens):
        v = any_(b, n, v)
    return v


def seq_zip(I, a, b):
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.gens) == len(b.gens) > 1 and a.cond is TRUE and b.cond is TRUE and \
                all(expand(sub(x[1], y[1])) is ZERO for x, y in zip(a.gens, b.gens)):
            m = {y[0]: x[0] for x, y in zip(a.gens, b.gens)}
            return Seq(a.gens, Tup([a.value, vsubst(b.value, m)]))
        a, b = flat1(I, a), flat1(I, b)
        if a.random and b.random:
            if is_inf(a.n):
                n = b.n
            elif is_inf(b.n):
                n = a.n
            else:
                n = imin(a.n, b.n)
            q = bvar(n, 'q')
            return Seq([(q, n)], Tup([a.at(q), b.at(q)]))
    return None


def is_inf(n):
    return n.op == 'sym' and n.args[0].startswith('infinite')


def push(I, ref, x):
    v = I.read(ref)
    if not isinstance(v, Arr):
        I.write(ref, top('push', reify(x, I)))
        return
    n = v.shape[0]
    n1 = add(n, ONE)
    b = bvar(n1, 'i')
    x = deref_all(I, x)
    if n is ZERO:
        I.write(ref, Arr([n1], [b], x))
    else:
        I.write(ref, Arr([n1], [b], merge(ieq(b, n), x, v.at(b))))


# ------------------------------------------------------------------ ndarray helpers
def dims_of(I, sh):
    """shape argument -> list of dims, fortran flag"""
    sh = I.force(sh)
    if isinstance(sh, Adt) and sh.path == '#f':
        return dims_of(I, sh.fields['0'])[0], True
    if isinstance(sh, E):
        return [sh], False
    if isinstance(sh, Tup):
        return [I.force(x) for x in sh.items], False
    if isinstance(sh, Arr) and is_num(sh.shape[0]):
        return [sh.at(num(k)) for k in range(int(val(sh.shape[0])))], False
    if isinstance(sh, Adt) and sh.path == '#dim':
        return list(sh.fields['0'].items), False
    return None, False


def axis_of(I, a):
    a = I.force(a)
    if isinstance(a, Adt):
        a = I.force(a.fields.get('0'))
    if isinstance(a, E) and is_num(a):
        return int(val(a))
    return None


def ob(I, kind, *data):
    I.effect(kind, data)


def prod_(xs):
    r = ONE
    for x in xs:
        r = mul(r, x)
    return expand(r)


def reshape(I, a, dims, fortran=False, what='reshape'):
    ob(I, 'reshape', prod_(dims), prod_(a.shape), what)
    old = a.shape
    if len(dims) == len(old) and all(expand(sub(x, y)) is ZERO for x, y in zip(dims, old)) and not fortran:
        return Arr(dims, a.bvs, a.body) if all(x is y for x, y in zip(dims, old)) else mkarr(dims, lambda *i: a.at(*i))

    def el(*i):
        if fortran:
            k = i[0]
            st = dims[0]
            for x, d in zip(i[1:], dims[1:]):
                k = add(k, mul(x, st))
                st = mul(st, d)
        else:
            k = ZERO
            for x, d in zip(i, dims):
                k = add(expand(mul(k, d)), x)
        # unflatten into the old shape (row major)
        idx = []
        for d in reversed(old[1:]):
            idx.append(imod(k, d))
            k = idiv(k, d)
        idx.append(k)
        return a.at(*reversed(idx))
    return mkarr(dims, el)


def elementwise(I, f, a, b, what):
    """binary elementwise with broadcasting"""
    aa, bb = isinstance(a, Arr), isinstance(b, Arr)
    if aa and bb:
        if a.ndim == b.ndim:
            ob(I, 'shapeeq', a.shape, b.shape, what)
            return mkarr(a.shape, lambda *i: f(a.at(*i), bcast(b, a.shape, i)))
        if a.ndim > b.ndim:
            ob(I, 'shapeeq', a.shape[a.ndim - b.ndim:], b.shape, what)
            return mkarr(a.shape, lambda *i: f(a.at(*i), b.at(*i[a.ndim - b.ndim:])))
        ob(I, 'shapeeq', b.shape[b.ndim - a.ndim:], a.shape, what)
        return mkarr(b.shape, lambda *i: f(a.at(*i[b.ndim - a.ndim:]), b.at(*i)))
    if aa:
        return mkarr(a.shape, lambda *i: f(a.at(*i), b))
    if bb:
        return mkarr(b.shape, lambda *i: f(a, b.at(*i)))
    return None


def bcast(b, shp, i):
    return b.at(*[ZERO if (d is ONE and s is not ONE) else x for x, d, s in zip(i, b.shape, shp)])


def lift2(I, f, a, b, what):
    a, b = I.force(a), I.force(b)
    if isinstance(a, Cond):
        return I.cases(a, lambda x: lift2(I, f, x, b, what))
    if isinstance(b, Cond):
        return I.cases(b, lambda x: lift2(I, f, a, x, what))
    if isinstance(a, E) and isinstance(b, E):
        return f(a, b)
    r = elementwise(I, f, a, b, what)
    return r if r is not None else top('op ' + what, reify(a, I), reify(b, I))


def arith(I, op, a, b, ta, ret):
    it = ta is not None and is_int_ty(ta) if ta else False

    def fdiv(x, y):
        I.effect('idiv' if it else 'div', y)
        return idiv(x, y) if it else div(x, y)

    def fsub(x, y):
        if it and strip_ref(ta)[1][0] == 'u':
            I.effect('usub', (x, y))
        return sub(x, y)

    def frem(x, y):
        I.effect('idiv', y)
        return imod(x, y) if it else top('frem', x, y)
    f = {'add': add, 'sub': fsub, 'mul': mul, 'div': fdiv, 'rem': frem}[op]
    return lift2(I, f, a, b, op)


def dot(I, a, b):
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        return top('dot', reify(a, I), reify(b, I))
    if a.ndim == 1 and b.ndim == 1:
        ob(I, 'shapeeq', a.shape, b.shape, 'dot')
        q = bvar(a.shape[0], 'i')
        return sum_(q, a.shape[0], mul(a.at(q), b.at(q)))
    if a.ndim == 2 and b.ndim == 1:
        ob(I, 'shapeeq', (a.shape[1],), b.shape, 'dot')

        def el(i):
            q = bvar(a.shape[1], 'k')
            return sum_(q, a.shape[1], mul(a.at(i, q), b.at(q)))
        return mkarr([a.shape[0]], el)
    if a.ndim == 1 and b.ndim == 2:
        ob(I, 'shapeeq', a.shape, (b.shape[0],), 'dot')

        def el(j):
            q = bvar(a.shape[0], 'k')
            return sum_(q, a.shape[0], mul(a.at(q), b.at(q, j)))
        return mkarr([b.shape[1]], el)
    if a.ndim == 2 and b.ndim == 2:
        ob(I, 'shapeeq', (a.shape[1],), (b.shape[0],), 'dot')

        def el(i, j):
            q = bvar(a.shape[1], 'k')
            return sum_(q, a.shape[1], mul(a.at(i, q), b.at(q, j)))
        return mkarr([a.shape[0], b.shape[1]], el)
    return top('dot')


def lane_view(a, axis, others):
    """1-d lane along axis at the other indices"""
    def el(q):
        idx = list(others)
        idx.insert(axis, q)
        return a.at(*idx)
    return mkarr([a.shape[axis]], el)


def sub_view(a, axis, i):
    """array with one axis fixed at i"""
    shp = [s for k, s in enumerate(a.shape) if k != axis]

    def el(*idx):
        idx = list(idx)
        idx.insert(axis, i)
        return a.at(*idx)
    return mkarr(shp, el)


def sub_view_mut(I, ref, a, axis, i):
    shp = [s for k, s in enumerate(a.shape) if k != axis]

    def fwd(*idx):
        idx = list(idx)
        idx.insert(axis, i)
        return tuple(idx)

    def inv(*idx):
        return ieq(idx[axis], i), tuple(x for k, x in enumerate(idx) if k != axis)
    return ref.sub(('v', View(shp, fwd, inv)))


def slice_info(I, info, a):
    """list of ('i', e) / ('r', lo, n) / ('n',) for each axis of a"""
    info = I.force(info)
    if isinstance(info, Adt) and info.path == '#sliceinfo':
        info = info.fields['0']
    items = None
    if isinstance(info, Arr) and is_num(info.shape[0]):
        items = [info.at(num(k)) for k in range(int(val(info.shape[0])))]
    elif isinstance(info, Tup):
        items = list(info.items)
    if items is None:
        return None
    out = []
    ax = 0
    for x in items:
        x = I.force(x)
        if isinstance(x, Adt) and x.path == '#se':
            x = I.force(x.fields['0'])
        if isinstance(x, E):
            ob(I, 'index', (a.shape[ax],), (x,))
            out.append(('i', x))
            ax += 1
        elif isinstance(x, Adt) and 'Range' in x.path:
            p = x.path.split('::')[-1]
            lo = I.force(x.fields.get('start', ZERO))
            hi = I.force(x.fields.get('end', a.shape[ax]))
            if not isinstance(lo, E) or not isinstance(hi, E):
                return None
            if p in ('RangeInclusive', 'RangeToInclusive'):
                hi = add(hi, ONE)

            def wrap(z):
                return add(a.shape[ax], z) if is_num(z) and val(z) < 0 else z
            lo, hi = wrap(lo), wrap(hi)
            if p != 'RangeFull':
                ob(I, 'slicerange', lo, hi, a.shape[ax])
            out.append(('r', lo, range_len(lo, hi)))
            ax += 1
        elif isinstance(x, Adt) and x.path.split('::')[-1] == 'NewAxis':
            out.append(('n',))
        else:
            return None
    return out


def do_slice(I, a, info):
    sp = slice_info(I, info, a)
    if sp is None:
        return None
    shp = []
    for s in sp:
        if s[0] == 'r':
            shp.append(s[2])
        elif s[0] == 'n':
            shp.append(ONE)

    def el(*idx):
        it = iter(idx)
        o = []
        for s in sp:
            if s[0] == 'i':
                o.append(s[1])
            elif s[0] == 'r':
                o.append(add(next(it), s[1]))
            else:
                next(it)
        return a.at(*o)
    return mkarr(shp, el)


def do_slice_mut(I, ref, a, info):
    sp = slice_info(I, info, a)
    if sp is None or any(s[0] == 'n' for s in sp):
        return None
    shp = [s[2] for s in sp if s[0] == 'r']

    def fwd(*idx):
        it = iter(idx)
        return tuple(s[1] if s[0] == 'i' else add(next(it), s[1]) for s in sp)

    def inv(*idx):
        cs, o = [], []
        for s, x in zip(sp, idx):
            if s[0] == 'i':
                cs.append(ieq(x, s[1]))
            else:
                if not (s[1] is ZERO):
                    cs.append(ile(s[1], x))
                cs.append(ilt(x, add(s[1], s[2])))
                o.append(sub(x, s[1]))
        return and_(*cs), tuple(o)
    return ref.sub(('v', View(shp, fwd, inv)))


def arr_map(I, a, f):
    """apply a closure to every element (via a sequence so that stateful closures work)"""
    bs = [bvar(s, 'i') for s in a.shape]
    s = seq_map(I, Seq(list(zip(bs, a.shape)), a.at(*bs)), f)
    if tuple(g[0] for g in s.gens) == tuple(bs):
        return Arr(a.shape, bs, deref_all(I, s.value))
    r = to_array(I, s)
    if a.ndim == 1:
        return r
    return reshape(I, r, list(a.shape))


def whole(I, a):
    """iterate all elements"""
    return arr_iter(a)


def fold(I, s, init, f, site=None):
    cell = I.new_cell(I.force(init) if not isinstance(init, MutRef) else init, 'fold')
    ref = MutRef(cell)

    def body(x):
        r = f(I.st[cell], x)
        I.write(ref, deref_all(I, r))
    I.run_seq(s, body, (), site or I.site)
    return I.st[cell]


def find_first(I, s, pred, mapv):
    """first element satisfying pred; Option value mapv(x, index)"""
    s = flat1(I, s)
    if not s.random:
        return None
    b, n = s.gens[0]
    p = seq_map(I, s, pred)
    c = I.force(p.value)
    if not isinstance(c, E):
        c = reify(c, I)
    r = bvar(n, 'q')
    cr = subst(c, {b: r})
    found = any_(r, n, cr)
    F = mk('first', r, n, cr) if r in free(cr) else ZERO
    v = mapv(s.at(F), F)
    return merge(found, Some(v), NONE)


def opt_cases(I, v, some, none):
    """apply to an Option/Result value; works on opaque ones too. some(payload) / none(err payload or None)"""
    v = I.force(v)
    if isinstance(v, Cond):
        return I.branch(v.c, lambda: opt_cases(I, v.a, some, none), lambda: opt_cases(I, v.b, some, none))
    if isinstance(v, Adt):
        if v.variant in ('Some', 'Ok'):
            return some(v.fields['0'])
        return none(v.fields.get('0'))
    if isinstance(v, E):
        t = TYOF.get(v)
        isres = t is not None and t[0] == 'adt' and t[1] == RES
        g = 'Ok' if isres else 'Some'
        c = mk('isvar', v, g)
        pt = t[2][0] if t is not None and t[0] == 'adt' and t[2] else ('param', '?')
        et = t[2][1] if isres else None
        return I.branch(c, lambda: some(I.opaque(mk('payload', v, g, '0'), pt)),
                        lambda: none(I.opaque(mk('payload', v, 'Err', '0'), et) if isres else None))
    return None


def panic(I, why):
    I.effect('panic', why)
    raise Dead()


# ------------------------------------------------------------------ floats
def float_un(name):
    return {
        'abs': fabs, 'sqrt': fsqrt, 'signum': fsign,
        'exp': lambda x: un('exp', x), 'ln': lambda x: un('ln', x), 'cos': lambda x: un('cos', x),
        'sin': lambda x: un('sin', x), 'tan': lambda x: un('tan', x), 'acos': lambda x: un('acos', x),
        'asin': lambda x: un('asin', x), 'atan': lambda x: un('atan', x), 'tanh': lambda x: un('tanh', x),
        'cosh': lambda x: un('cosh', x), 'sinh': lambda x: un('sinh', x),
        'exp_m1': lambda x: sub(un('exp', x), ONE), 'ln_1p': lambda x: un('ln', add(ONE, x)),
        'cbrt': lambda x: mk('powf', x, num(Fraction(1, 3))),
        'log2': lambda x: div(un('ln', x), un('ln', num(2))), 'log10': lambda x: div(un('ln', x), un('ln', num(10))),
        'exp2': lambda x: mk('powf', num(2), x),
        'floor': lambda x: app('floor', x), 'ceil': lambda x: app('ceil', x), 'round': lambda x: app('round', x),
        'trunc': lambda x: app('trunc', x), 'fract': lambda x: app('fract', x),
        'is_nan': lambda x: not_(feq(x, x)), 'is_infinite': lambda x: feq(fabs(x), INF),
        'is_finite': lambda x: flt(fabs(x), INF),
        'is_sign_negative': lambda x: flt(x, ZERO), 'is_negative': lambda x: flt(x, ZERO),
        'is_sign_positive': lambda x: not_(flt(x, ZERO)), 'is_positive': lambda x: flt(ZERO, x),
        'neg': neg, 'is_zero': lambda x: feq(x, ZERO), 'is_one': lambda x: feq(x, ONE),
        'to_degrees': lambda x: app('deg', x), 'to_radians': lambda x: app('rad', x),
    }.get(name)


def ln_(x):
    if x.op == 'sym' and x.args[0] == 'const:e':
        return ONE
    return un('ln', x)


def ln_base(x, b):
    d = ln_(b)
    return un('ln', x) if d is ONE else div(un('ln', x), d)


PRIM_FLOATS = {'f32', 'f64'}


def ordering_of(I, a, b, isint_):
    """Ordering value of a.cmp(b)"""
    return mk('iord' if isint_ else 'ord', a, b)


def dispatch(I, fn, path, args, targs, ret, argtys):
    name = fn['name'] if fn.get('name') else path.split('::')[-1]
    trait = fn.get('trait') or ''
    r = _dispatch(I, fn, path, name, trait, args, targs, ret, argtys)
    return r


def elemty(argtys, k=0):
    if argtys and len(argtys) > k:
        return strip_ref(argtys[k])
    return None


def _dispatch(I, fn, path, name, trait, args, targs, ret, argtys):
    F = I.force
    A = [F(a) for a in args]
    t0 = elemty(argtys)
    if t0 is None and targs:
        t0 = strip_ref(targs[0])

    # -------------------------------------------------- operators
    if trait.startswith('core::ops::arith::') or trait.startswith('core::ops::bit::'):
        op = trait.split('::')[-1]
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            return arith(I, op.lower(), A[0], A[1], t0, ret)
        if op.endswith('Assign') and isinstance(args[0], MutRef):
            o = op[:-6].lower()
            if o in ('add', 'sub', 'mul', 'div', 'rem'):
                v = arith(I, o, A[0], A[1], t0, ret)
                if isinstance(A[0], Arr) and isinstance(v, Arr) and len(v.shape) == len(A[0].shape):
                    v = Arr(A[0].shape, v.bvs, v.body) if all(x is y for x, y in zip(v.shape, A[0].shape)) else \
                        mkarr(A[0].shape, lambda *i: v.at(*i))
                I.write(args[0], v)
                return UNIT
            if o in ('bitand', 'bitor', 'bitxor') and all(isinstance(x, E) for x in A):
                I.write(args[0], {'bitand': and_, 'bitor': or_, 'bitxor': lambda x, y: sel(x, not_(y), y)}[o](*A))
                return UNIT
        if op == 'Neg':
            if isinstance(A[0], Arr):
                a = A[0]
                return mkarr(a.shape, lambda *i: neg(a.at(*i)))
            return neg(A[0]) if isinstance(A[0], E) else NI
        if op == 'Not' and isinstance(A[0], E):
            return not_(A[0])
        if op in ('BitAnd', 'BitOr', 'BitXor') and all(isinstance(x, E) for x in A):
            return {'BitAnd': and_, 'BitOr': or_, 'BitXor': lambda x, y: sel(x, not_(y), y)}[op](*A)
        return NI
    if trait in ('core::cmp::PartialEq', 'core::cmp::Eq') and name in ('eq', 'ne'):
        it = t0 is not None and is_int_ty(t0)
        a, b = A[0], A[1]
        if isinstance(a, E) and isinstance(b, E):
            if is_bool_ty(t0):
                c = sel(a, b, not_(b))
            elif it:
                c = ieq(a, b)
            elif t0 is not None and t0[0] == 'adt' and t0[1] == ORD:
                c = mk('app', 'ordeq', a, b)
            else:
                c = feq(a, b)
        elif isinstance(a, Arr) and isinstance(b, Arr):
            bs = a.bvs
            c = and_(*[ieq(x, y) for x, y in zip(a.shape, b.shape)])
            d = not_(feq(reify(a.body, I), reify(b.at(*bs), I)))
            for x, n in reversed(list(zip(bs, a.shape))):
                d = any_(x, n, d)
            c = and_(c, not_(d))
        else:
            c = I.val_eq(a, b)
        return c if name == 'eq' else not_(c)
    if trait in ('core::cmp::PartialOrd', 'core::cmp::Ord') or path.startswith('core::cmp::'):
        it = t0 is not None and is_int_ty(t0)
        if len(A) >= 2 and isinstance(A[0], E) and isinstance(A[1], E):
            a, b = A[0], A[1]
            l = ilt if it else flt
            if name == 'lt':
                return l(a, b)
            if name == 'gt':
                return l(b, a)
            if name == 'le':
                return ile(a, b) if it else fle(a, b)
            if name == 'ge':
                return ile(b, a) if it else fle(b, a)
            if name == 'max':
                return imax(a, b) if it else fmax(a, b)
            if name == 'min':
                return imin(a, b) if it else fmin(a, b)
            if name == 'clamp':
                c = A[2]
                return imin(imax(a, b), c) if it else fmin(fmax(a, b), c)
            if name == 'partial_cmp':
                o = ordering_of(I, a, b, it)
                if it:
                    return Some(o)
                return merge(and_(feq(a, a), feq(b, b)), Some(o), NONE)
            if name == 'cmp':
                return ordering_of(I, a, b, it)
        if name in ('reverse',) and isinstance(A[0], E) and A[0].op in ('ord', 'iord'):
            return mk(A[0].op, A[0].args[1], A[0].args[0])
        if name == 'reverse' and isinstance(A[0], Adt):
            return {'Less': GREATER, 'Greater': LESS, 'Equal': EQUAL}[A[0].variant]
        if name == 'reverse' and isinstance(A[0], Cond):
            return I.cases(A[0], lambda v: _dispatch(I, fn, path, name, trait, [v], targs, ret, argtys))
        if name in ('then', 'then_with'):
            def after(o):
                if isinstance(o, Adt):
                    eq = boolc(o.variant == 'Equal')
                else:
                    eq = I.isvar(o, ORD, 'Equal') if isinstance(o, E) else None
                if eq is None:
                    return top('ordering')
                return I.branch(eq, lambda: A[1] if name == 'then' else I.call_value(args[1], []), lambda: o)
            return I.cases(A[0], after)
        if name in ('is_lt', 'is_gt', 'is_le', 'is_ge', 'is_eq', 'is_ne') and isinstance(A[0], E):
            v = A[0]
            return {'is_lt': lambda: I.isvar(v, ORD, 'Less'), 'is_gt': lambda: I.isvar(v, ORD, 'Greater'),
                    'is_le': lambda: not_(I.isvar(v, ORD, 'Greater')), 'is_ge': lambda: not_(I.isvar(v, ORD, 'Less')),
                    'is_eq': lambda: I.isvar(v, ORD, 'Equal'), 'is_ne': lambda: not_(I.isvar(v, ORD, 'Equal'))}[name]()
        if name == 'Reverse':
            return Adt('core::cmp::Reverse', 'Reverse', {'0': A[0]})
    # -------------------------------------------------- floats and numbers
    isfloatish = 'num_traits' in path or path.startswith('core::f64') or path.startswith('std::f64') or \
        path.startswith('core::f32') or path.startswith('std::f32') or path.startswith('core::num') or \
        '<impl f64>' in path or '<impl f32>' in path or '<impl usize>' in path or '<impl i32>' in path or \
        '<impl u' in path or '<impl i' in path and 'ndarray' not in path
    if isfloatish:
        r = numeric(I, name, path, A, t0, ret, targs)
        if r is not NI:
            return r
    # -------------------------------------------------- closures
    if trait.startswith('core::ops::function::Fn') and name in ('call', 'call_mut', 'call_once'):
        tup = A[1]
        return I.call_value(args[0], list(tup.items) if isinstance(tup, Tup) else [tup], ret)
    # -------------------------------------------------- conversions
    if name == 'clone' and trait == 'core::clone::Clone' or name in ('cloned', 'copied') and not trait and len(A) == 1 and \
            isinstance(A[0], (Arr,)):
        return deref_all(I, A[0])
    if name == 'clone_from' and isinstance(args[0], MutRef):
        I.write(args[0], deref_all(I, A[1]))
        return UNIT
    if trait in ('core::ops::deref::Deref', 'core::ops::deref::DerefMut', 'core::convert::AsRef', 'core::borrow::Borrow',
                 'core::convert::AsMut', 'core::borrow::BorrowMut', 'alloc::borrow::ToOwned'):
        if trait.endswith('ToOwned') or trait.endswith('Deref') or trait.endswith('Borrow') or trait.endswith('AsRef'):
            return A[0] if not (isinstance(args[0], MutRef) and name in ('borrow',)) else A[0]
        return args[0]
    if trait in ('core::convert::From', 'core::convert::Into', 'core::convert::TryFrom', 'core::convert::TryInto'):
        dst = strip_ref(ret)
        wrap = trait.endswith('TryFrom') or trait.endswith('TryInto')
        if wrap and dst[0] == 'adt' and dst[1] == RES:
            dst = strip_ref(dst[2][0])
        v = A[0]
        src = t0
        if dst[0] == 'adt' and 'SliceInfoElem' in dst[1]:
            return Adt('#se', '#se', {'0': v})
        if dst[0] == 'adt' and 'SliceInfo' in dst[1]:
            return Adt('#sliceinfo', '#sliceinfo', {'0': v})
        if src == dst or (dst[0] == 'prim' and isinstance(v, E)) or (arr_ndim(dst) is not None and isinstance(v, Arr)) or \
                (dst[0] == 'param' and isinstance(v, E)):
            if wrap:
                return Ok(v)
            return v
        imp = I.prog.resolve_impl('core::convert::From', (dst, src))
        if imp:
            fid = imp[0]['itemd'].get('from')
            if fid and I.prog.fns[fid].get('_raw') is not None:
                return I.call_fn(I.prog.fns[fid], [v], dict(imp[1]))
        if dst[0] == 'adt' and dst[1] in ('alloc::string::String', 'alloc::boxed::Box', 'alloc::vec::Vec', 'alloc::sync::Arc'):
            return v
        if dst[0] == 'adt' and dst[1] == OPT:
            return Some(v)
        return NI
    if trait == 'core::default::Default' and name == 'default':
        t = strip_ref(ret)
        if t[0] == 'prim':
            if t[1] == 'bool':
                return FALSE
            return ZERO
        if t[0] == 'param':
            return ZERO
        nd_ = arr_ndim(t)
        if nd_ is not None:
            return mkarr([ZERO] * nd_, lambda *i: ZERO)
        if t[0] == 'adt' and t[1] == OPT:
            return NONE
        if t[0] == 'tuple':
            return Tup([_dispatch(I, fn, path, name, trait, [], targs, x, []) for x in t[1]])
        imp = I.prog.resolve_impl('core::default::Default', (t,))
        if imp:
            fid = imp[0]['itemd'].get('default')
            if fid and I.prog.fns[fid].get('_raw') is not None:
                return I.call_fn(I.prog.fns[fid], [], dict(imp[1]))
        return NI
    # -------------------------------------------------- Option / Result / ?
    if trait == 'core::ops::try_trait::Try' and name == 'branch':
        isres = t0 is not None and t0[0] == 'adt' and t0[1] == RES

        def go(v):
            v = F(v)
            if isinstance(v, Cond):
                return merge(v.c, go(v.a), go(v.b))
            if isinstance(v, Adt):
                if v.variant in ('Some', 'Ok'):
                    return Adt(CF, 'Continue', {'0': v.fields['0']})
                return Adt(CF, 'Break', {'0': v})
            if isinstance(v, E):
                g = 'Ok' if isres else 'Some'
                good = Adt(CF, 'Continue', {'0': I.opaque(mk('payload', v, g, '0'), t0[2][0])})
                bad = Adt(CF, 'Break', {'0': Err(I.opaque(mk('payload', v, 'Err', '0'), t0[2][1])) if isres else NONE})
                return merge(mk('isvar', v, g), good, bad)
            return top('try')
        return go(A[0])
    if trait == 'core::ops::try_trait::FromResidual' and name == 'from_residual':
        v = A[0]

        def go(v):
            v = F(v)
            if isinstance(v, Cond):
                return merge(v.c, go(v.a), go(v.b))
            if isinstance(v, Adt) and v.variant == 'Err':
                dst = strip_ref(ret)
                src = t0
                e = v.fields['0']
                if dst[0] == 'adt' and src and src[0] == 'adt' and len(dst[2]) > 1 and len(src[2]) > 1 and dst[2][1] != src[2][1]:
                    imp = I.prog.resolve_impl('core::convert::From', (dst[2][1], src[2][1]))
                    if imp:
                        fid = imp[0]['itemd'].get('from')
                        if fid and I.prog.fns[fid].get('_raw') is not None:
                            return Err(I.call_fn(I.prog.fns[fid], [e], dict(imp[1])))
                    return Err(mk('app', 'from:%s' % tname(dst[2][1]), reify(e, I)))
                return v
            if isinstance(v, Adt):
                return v
            return top('residual')
        return go(v)
    if path.startswith('core::option::Option') or path.startswith('core::result::Result') or \
            (path.startswith('core::bool') and False):
        r = option(I, name, path, args, A, t0, ret)
        if r is not NI:
            return r
    if path.startswith('core::bool') or '<impl bool>' in path:
        if name == 'then':
            return I.branch(A[0], lambda: Some(I.call_value(args[1], [])), lambda: NONE)
        if name == 'then_some':
            return merge(A[0], Some(A[1]), NONE)
    # -------------------------------------------------- iterators
    if trait.startswith('core::iter') or path.startswith('core::iter') or trait.startswith('core::slice::iter') or \
            path.startswith('itertools') or (t0 is not None and t0[0] == 'adt' and ('Iter' in t0[1].split('::')[-1] or
                                                                           'iter' in t0[1])):
        r = iterator(I, name, path, args, A, t0, ret, targs)
        if r is not NI:
            return r
    # -------------------------------------------------- indexing
    if trait in ('core::ops::index::Index', 'core::ops::index::IndexMut'):
        if name == 'index_mut' and isinstance(args[0], MutRef):
            return I.index_place(args[0], A[1])
        c = MutRef(I.new_cell(A[0]))
        p = I.index_place(c, A[1])
        return I.read(p)
    # -------------------------------------------------- ranges
    if path.startswith('core::ops::range'):
        if name == 'new' and len(A) == 2:
            return Adt('core::ops::range::RangeInclusive', 'RangeInclusive', {'start': A[0], 'end': A[1]})
        if name == 'contains' and isinstance(A[0], Adt):
            v = A[0]
            x = A[1]
            cs = []
            it = isinstance(x, E) and isint(x)
            p = v.path.split('::')[-1]
            if 'start' in v.fields:
                cs.append(ile(v.fields['start'], x) if it else fle(v.fields['start'], x))
            if 'end' in v.fields:
                inc = p in ('RangeInclusive', 'RangeToInclusive')
                cs.append((ile if it else fle)(x, v.fields['end']) if inc else (ilt if it else flt)(x, v.fields['end']))
            return and_(*cs)
        if name in ('start', 'end') and isinstance(A[0], Adt):
            return A[0].fields[name]
        if name == 'is_empty' and isinstance(A[0], Adt):
            return not_(ilt(A[0].fields['start'], A[0].fields['end']))
    # -------------------------------------------------- the numpy and pyo3 crates (bindings)
    if path.startswith('numpy::'):
        if name in ('as_array', 'readonly', 'to_owned_array', 'readwrite', 'as_array_unchecked') and len(A) == 1:
            return A[0]
        if name in ('as_array_mut', 'as_array_mut_unchecked') and len(A) == 1:
            m = MutRef(I.new_cell(A[0], 'pyarray'))
            I.pycells.append((A[0], m))
            return m
        if name in ('from_array', 'from_owned_array') and len(A) == 2:
            return A[1]
        if name in ('to_pyarray', 'into_pyarray') and len(A) == 2:
            return A[0]
    if path.startswith('pyo3::'):
        if name == 'new_err' and path.startswith('pyo3::exceptions::'):
            return mk('app', 'pyerr:' + path.split('::')[2])
        if path in ('pyo3::err::PyErr::new',) and targs and targs[0][0] == 'adt':
            return mk('app', 'pyerr:' + targs[0][1].split('::')[-1])
    # -------------------------------------------------- formatting / printing / panics
    if path in ('std::io::stdio::stdout', 'std::io::stdio::stderr'):
        return mk('lit', 'stdio', path)
    if t0 is not None and t0[0] == 'adt' and t0[1].split('::')[-1] in ('Stdout', 'Stderr', 'StdoutLock', 'StderrLock') or \
            (path.startswith('std::io::stdio::Std') and name == 'lock'):
        if name == 'lock':
            return A[0]
        if trait.split('::')[-1] == 'Write':
            I.effect('print', mk('lit', 'stdio', name))
            return Ok(UNIT) if name in ('write_fmt', 'write_all', 'flush') else Ok(fresh('written', 'N'))
    if path in ('std::io::stdio::_print', 'std::io::stdio::_eprint'):
        I.effect('print', reify(A[0], I))
        return UNIT
    if path.startswith('core::fmt') or path.startswith('alloc::fmt') or trait.startswith('core::fmt') or \
            path.startswith('alloc::string') or trait == 'alloc::string::ToString' or path.startswith('alloc::str') or \
            path.startswith('core::str'):
        if name in ('to_string', 'as_str', 'to_owned', 'into', 'must_use', 'from') and A:
            return A[0]
        if ret == ('tuple', ()):
            return UNIT
        es = tuple(reify(a, I) for a in A if not isinstance(a, (Clo, FnV, PyFn)))
        return I.opaque(mk('app', 'fmt:' + name, *es), ret)
    if path.startswith('core::panicking') or path.startswith('std::panicking') or path.startswith('std::rt::begin_panic') or \
            path.startswith('core::hint::unreachable'):
        panic(I, path)
    if path == 'core::intrinsics::discriminant_value':
        return app('discr', reify(A[0], I))
    # -------------------------------------------------- mem
    if path.startswith('core::mem'):
        if name == 'swap' and isinstance(args[0], MutRef) and isinstance(args[1], MutRef):
            a, b = I.read(args[0]), I.read(args[1])
            I.write(args[0], b)
            I.write(args[1], a)
            return UNIT
        if name == 'replace' and isinstance(args[0], MutRef):
            a = I.read(args[0])
            I.write(args[0], A[1])
            return a
        if name == 'take' and isinstance(args[0], MutRef):
            a = I.read(args[0])
            if isinstance(a, Arr):
                I.write(args[0], mkarr([ZERO] * a.ndim, lambda *i: ZERO))
                return a
        if name == 'drop':
            return UNIT
    if path in ('core::mem::drop', 'core::convert::identity', 'core::hint::black_box'):
        return UNIT if name == 'drop' else A[0]
    if path.startswith('alloc::boxed') or path.startswith('alloc::sync') or path.startswith('alloc::rc'):
        if name in ('new', 'clone', 'pin') and len(A) == 1:
            return A[0]
        if name == 'new_uninit' or name == 'box_new':
            return A[0] if A else top('box')
    # -------------------------------------------------- ndarray
    if 'ndarray' in path or trait.startswith('ndarray'):
        r = nd(I, name, path, trait, args, A, t0, ret, targs)
        if r is not NI:
            return r
    # -------------------------------------------------- Vec / slices
    if path.startswith('alloc::vec') or path.startswith('alloc::slice') or path.startswith('core::slice') or \
            path.startswith('core::array') or trait.startswith('core::slice') or '<impl [T]>' in path:
        r = vec(I, name, path, args, A, t0, ret)
        if r is not NI:
            return r
    if trait == 'core::iter::traits::collect::Extend' and name == 'extend' and isinstance(args[0], MutRef):
        s = to_seq(I, args[1] if not isinstance(args[1], MutRef) else A[1])
        if isinstance(s, Seq):
            extend(I, args[0], s)
            return UNIT
    return NI


def extend(I, ref, s):
    v = I.read(ref)
    s1 = flat1(I, s)
    if isinstance(v, Arr) and s1.random:
        n0, n1 = v.shape[0], s1.n
        if n0 is ZERO:
            b, n = s1.gens[0]
            I.write(ref, Arr([n], [b], deref_all(I, s1.value)))
        else:
            sv = Seq(s1.gens, deref_all(I, s1.value))
            I.write(ref, mkarr([add(n0, n1)], lambda i: merge(ilt(i, n0), v.at(i), sv.at(sub(i, n0)))))
        return
    I.run_seq(s, lambda x: push(I, ref, x), (), I.site)


def numeric(I, name, path, A, t0, ret, targs):
    it = t0 is not None and is_int_ty(t0)
    if name == 'zero' and not A:
        nd = arr_ndim(ret)
        return ZERO
    if name == 'one' and not A:
        return ONE
    if name in ('infinity', 'INFINITY') and not A:
        return INF
    if name == 'neg_infinity' and not A:
        return NINF
    if name == 'nan' and not A:
        return NAN
    if name in ('epsilon', 'max_value', 'min_value', 'min_positive_value') and not A:
        return sym('const:' + name, 'N' if is_int_ty(ret) else 'R')
    if name == 'neg_zero':
        return ZERO
    if not A:
        if name == 'E':
            return sym('const:e', 'R')
        if name == 'PI':
            return sym('const:pi', 'R')
        return NI
    if not all(isinstance(a, E) for a in A):
        if all(isinstance(a, (E, Cond)) for a in A):
            k = [i for i, a in enumerate(A) if isinstance(a, Cond)][0]
            return I.cases(A[k], lambda v: numeric(I, name, path, A[:k] + [v] + A[k + 1:], t0, ret, targs))
        return NI
    x = A[0]
    if name in ('cast', 'from') and path.startswith('num_traits'):
        r = strip_ref(ret)
        if r[0] == 'adt' and r[1] == OPT:
            dst = r[2][0]
            if is_int_ty(dst) and not isint(x):
                return Some(mk('app', 'trunc', x) if not is_num(x) else x)
            return Some(x)
        return x
    if name == 'as_' and path.startswith('num_traits'):
        if is_int_ty(ret) and not isint(x):
            return mk('app', 'trunc', x) if not is_num(x) else x
        return x
    if name.startswith('to_') and len(A) == 1 and strip_ref(ret)[0] == 'adt' and strip_ref(ret)[1] == OPT:
        dst = strip_ref(ret)[2][0]
        if dst == ('prim', 'f32'):
            return Some(x)
        return Some(x)
    if name.startswith('from_') and len(A) == 1 and strip_ref(ret)[0] == 'adt' and strip_ref(ret)[1] == OPT:
        return Some(x)
    if it or is_int_ty(ret or ('other', '')) and len(A) >= 1 and isint(x):
        if name == 'max':
            return imax(A[0], A[1])
        if name == 'min':
            return imin(A[0], A[1])
        if name == 'saturating_sub':
            return sub(imax(A[0], A[1]), A[1])
        if name in ('wrapping_add', 'saturating_add'):
            return add(*A)
        if name in ('wrapping_mul', 'saturating_mul'):
            return mul(*A)
        if name == 'abs_diff':
            return sub(imax(A[0], A[1]), imin(A[0], A[1]))
        if name == 'pow':
            return powi(A[0], A[1])
        if name == 'div_ceil':
            return idiv(add(A[0], sub(A[1], ONE)), A[1])
        if name in ('checked_sub',):
            return merge(ile(A[1], A[0]), Some(sub(A[0], A[1])), NONE)
        if name == 'checked_add':
            return Some(add(*A))
        if name == 'checked_mul':
            return Some(mul(*A))
        if name in ('checked_rem', 'checked_div'):
            f = imod if name == 'checked_rem' else idiv
            return merge(not_(ieq(A[1], ZERO)), Some(f(A[0], A[1])), NONE)
        if name == 'rem_euclid':
            I.effect('idiv', A[1])
            return imod(A[0], A[1])
        if name == 'is_zero':
            return ieq(x, ZERO)
        if name == 'is_multiple_of':
            return ieq(imod(A[0], A[1]), ZERO)
        if name == 'abs':
            return x if nonneg_int(x) else top('iabs', x)
    f = float_un(name)
    if f is not None and len(A) == 1:
        if name in ('is_nan', 'is_finite', 'is_infinite'):
            I.effect('isnan', (x,))
        return f(x)
    if len(A) == 1 and name == 'recip' or name == 'inv' and len(A) == 1:
        I.effect('div', x)
        return div(ONE, x)
    if name == 'ln' and len(A) == 1:
        return ln_(x)
    if name == 'log' and len(A) == 2:
        return ln_base(x, A[1])
    if name == 'powi':
        if is_num(A[1]) and val(A[1]) < 0:
            I.effect('div', x)
        return powi(x, A[1])
    if name in ('powf', 'pow'):
        if is_num(A[1]) and val(A[1]) < 0:
            I.effect('div', x)
        return powf(x, A[1])
    if name == 'max':
        return fmax(A[0], A[1])
    if name == 'min':
        return fmin(A[0], A[1])
    if name == 'clamp':
        return fmin(fmax(A[0], A[1]), A[2])
    if name == 'mul_add':
        return add(mul(A[0], A[1]), A[2])
    if name == 'hypot':
        return fsqrt(add(mul(A[0], A[0]), mul(A[1], A[1])))
    if name == 'abs_sub':
        return fmax(sub(A[0], A[1]), ZERO)
    if name == 'copysign':
        return mul(fabs(A[0]), fsign(A[1]))
    if name == 'total_cmp':
        return ordering_of(I, A[0], A[1], False)
    if name == 'atan2':
        return app('atan2', *A)
    return NI


def option(I, name, path, args, A, t0, ret):
    v = A[0] if A else None
    if v is None:
        return NI
    isres = path.startswith('core::result')
    mk_ok, mk_no = (Ok, Err) if isres else (Some, lambda e: NONE)
    call = lambda f, *xs: I.call_value(f, list(xs))
    if name in ('unwrap', 'expect', 'unwrap_unchecked'):
        if name == 'unwrap_unchecked':
            I.effect('unsafe', 'unwrap_unchecked')
        if isinstance(v, E) and v.op == 'top':
            return I.opaque(top('unwrap', v), ret)

        def bad(e):
            panic(I, ('unwrap', tname(t0) if t0 else ''))
        return opt_cases(I, v, lambda x: x, bad)
    if name in ('unwrap_err', 'expect_err'):
        return opt_cases(I, v, lambda x: panic(I, 'unwrap_err'), lambda e: e)
    if name == 'unwrap_or':
        return opt_cases(I, v, lambda x: x, lambda e: A[1])
    if name == 'unwrap_or_else':
        return opt_cases(I, v, lambda x: x, lambda e: call(args[1], e) if isres else call(args[1]))
    if name == 'unwrap_or_default':
        return opt_cases(I, v, lambda x: x, lambda e: ZERO)
    if name == 'map':
        return opt_cases(I, v, lambda x: mk_ok(call(args[1], x)), lambda e: mk_no(e))
    if name == 'map_err':
        return opt_cases(I, v, lambda x: Ok(x), lambda e: Err(call(args[1], e)))
    if name == 'map_or':
        return opt_cases(I, v, lambda x: call(args[2], x), lambda e: A[1])
    if name == 'map_or_else':
        return opt_cases(I, v, lambda x: call(args[2], x), lambda e: call(args[1], e) if isres else call(args[1]))
    if name == 'and_then':
        return opt_cases(I, v, lambda x: call(args[1], x), lambda e: mk_no(e))
    if name == 'or_else':
        return opt_cases(I, v, lambda x: mk_ok(x), lambda e: call(args[1], e) if isres else call(args[1]))
    if name == 'and':
        return opt_cases(I, v, lambda x: A[1], lambda e: mk_no(e))
    if name == 'or':
        return opt_cases(I, v, lambda x: mk_ok(x), lambda e: A[1])
    if name == 'ok_or':
        return opt_cases(I, v, lambda x: Ok(x), lambda e: Err(A[1]))
    if name == 'ok_or_else':
        return opt_cases(I, v, lambda x: Ok(x), lambda e: Err(call(args[1])))
    if name == 'ok':
        return opt_cases(I, v, lambda x: Some(x), lambda e: NONE)
    if name == 'err':
        return opt_cases(I, v, lambda x: NONE, lambda e: Some(e))
    if name in ('is_some', 'is_ok'):
        return opt_cases(I, v, lambda x: TRUE, lambda e: FALSE)
    if name in ('is_none', 'is_err'):
        return opt_cases(I, v, lambda x: FALSE, lambda e: TRUE)
    if name in ('is_some_and', 'is_ok_and'):
        return opt_cases(I, v, lambda x: call(args[1], x), lambda e: FALSE)
    if name == 'is_none_or':
        return opt_cases(I, v, lambda x: call(args[1], x), lambda e: TRUE)
    if name == 'filter':
        def some(x):
            c = I.force(call(args[1], x))
            return merge(c, Some(x), NONE)
        return opt_cases(I, v, some, lambda e: NONE)
    if name in ('copied', 'cloned', 'as_ref', 'as_deref'):
        return v
    if name in ('as_mut',) and isinstance(args[0], MutRef):
        if isinstance(v, Adt):
            if v.variant in ('Some', 'Ok'):
                return Adt(v.path, v.variant, {'0': args[0].sub(('f', '0'))})
            return v
    if name == 'take' and isinstance(args[0], MutRef):
        I.write(args[0], NONE)
        return v
    if name == 'replace' and isinstance(args[0], MutRef):
        I.write(args[0], Some(A[1]))
        return v
    if name == 'insert' and isinstance(args[0], MutRef):
        I.write(args[0], Some(A[1]))
        return args[0].sub(('f', '0'))
    if name == 'unzip' or name == 'flatten':
        return opt_cases(I, v, lambda x: x, lambda e: NONE) if name == 'flatten' else NI
    if name == 'iter' or name == 'into_iter':
        return to_seq(I, v)
    return NI


def iterator(I, name, path, args, A, t0, ret, targs):
    call = lambda f, *xs: I.call_value(f, list(xs))
    if name == 'repeat' and 'sources' in path:
        return seq_of(INFN, lambda q: A[0])
    if name in ('repeat_n',) and 'sources' in path:
        return seq_of(A[1], lambda q: A[0])
    if name == 'once' and 'sources' in path:
        return seq_of(ONE, lambda q: A[0])
    if name == 'empty' and 'sources' in path:
        return seq_of(ZERO, lambda q: ZERO)
    if name == 'successors' or name == 'from_fn' or name == 'repeat_with':
        return NI
    if name == 'zip' and 'sources' not in path and not args[1:]:
        return NI
    if not args:
        return NI
    if name in ('into_iter', 'iter', 'by_ref', 'into_iter_sorted'):
        a0 = args[0]
        if isinstance(a0, MutRef):
            w = I.read(a0)
            if isinstance(w, (Seq,)) or (isinstance(w, Adt) and w.path in ('#iter',)):
                if name == 'by_ref':
                    return a0
                return to_seq(I, w)
        s = to_seq(I, a0)
        return s if isinstance(s, Seq) else NI
    if name == 'next' and isinstance(args[0], MutRef):
        v = I.read(args[0])
        if isinstance(v, Adt) and 'Range' in v.path:
            lo, hi = v.fields['start'], v.fields['end']
            c = ilt(lo, hi)
            I.write(args[0], merge(c, Adt(v.path, v.variant, {'start': add(lo, ONE), 'end': hi}, v.ty), v))
            return merge(c, Some(lo), NONE)
        if isinstance(v, Seq):
            v = flat1(I, v)
            if v.random:
                v = Adt('#iter', '#iter', {'seq': v, 'pos': ZERO})
        if isinstance(v, Adt) and v.path == '#iter':
            s, pos = v.fields['seq'], v.fields['pos']
            c = ilt(pos, s.n)
            I.write(args[0], merge(c, Adt('#iter', '#iter', {'seq': s, 'pos': add(pos, ONE)}), v))
            return merge(c, Some(s.at(pos)), NONE)
        return NI
    s = to_seq(I, args[0])
    if not isinstance(s, Seq):
        return NI
    if name in ('map',):
        return seq_map(I, s, lambda x: call(args[1], x))
    if name in ('copied', 'cloned'):
        return Seq(s.gens, deref_all(I, s.value), s.cond)
    if name in ('fuse', 'peekable', 'into_iter', 'iter', 'by_ref'):
        return s
    if name == 'inspect':
        return seq_map(I, s, lambda x: (call(args[1], x), x)[1])
    if name == 'enumerate':
        if s.random:
            b, n = s.gens[0]
            return Seq(s.gens, Tup([b, s.value]))
        if s.cond is TRUE:
            f = flat1(I, s)
            if f.random:
                k = ZERO
                for b, n in s.gens:
                    k = add(expand(mul(k, n)), b)
                return Seq(s.gens, Tup([k, s.value]))
        return NI
    if name == 'zip':
        r = seq_zip(I, s, to_seq(I, args[1]))
        return r if r is not None else NI
    if name in ('rev', 'skip', 'take', 'step_by', 'chain', 'last', 'nth', 'position', 'find', 'windows', 'len', 'count',
                'cycle', 'pairwise', 'rposition'):
        f = flat1(I, s)
        if name == 'count' and not f.random:
            v = sel(s.cond, ONE, ZERO)
            for b, n in reversed(s.gens):
                v = sum_(b, n, v)
            return v
        if not f.random:
            return NI
        n = f.n
        if name == 'rev':
            return seq_of(n, lambda q: f.at(sub(sub(n, ONE), q)))
        if name == 'skip':
            k = imin(A[1], n)
            return seq_of(sub(n, k), lambda q: f.at(add(q, k)))
        if name == 'take':
            k = A[1] if is_inf(n) else imin(A[1], n)
            return seq_of(k, lambda q: f.at(q))
        if name == 'step_by':
            k = A[1]
            return seq_of(idiv(add(n, sub(k, ONE)), k), lambda q: f.at(expand(mul(q, k))))
        if name == 'chain':
            g = flat1(I, to_seq(I, args[1]))
            if not isinstance(g, Seq) or not g.random:
                return NI
            return seq_of(add(n, g.n), lambda q: merge(ilt(q, n), f.at(q), g.at(sub(q, n))))
        if name in ('len', 'count'):
            return n
        if name == 'last':
            return merge(ilt(ZERO, n), Some(f.at(sub(n, ONE))), NONE)
        if name == 'nth':
            return merge(ilt(A[1], n), Some(f.at(A[1])), NONE)
        if name == 'position':
            r = find_first(I, f, lambda x: call(args[1], x), lambda x, k: k)
            return r if r is not None else NI
        if name == 'find':
            r = find_first(I, f, lambda x: call(args[1], x), lambda x, k: x)
            return r if r is not None else NI
        return NI
    if name == 'find_map':
        f = flat1(I, s)
        if f.random:
            m = seq_map(I, f, lambda x: call(args[1], x))
            b, n = m.gens[0]
            v = I.force(m.value)
            c = opt_is_some(I, v)
            r = bvar(n, 'q')
            cr = subst(c, {b: r})
            found = any_(r, n, cr)
            Fi = mk('first', r, n, cr) if r in free(cr) else ZERO
            return merge(found, vsubst(v, {b: Fi}), NONE)
        return NI
    if name in ('filter',):
        p = seq_map(I, s, lambda x: call(args[1], x))
        c = I.force(p.value)
        if not isinstance(c, E):
            c = reify(c, I)
        return Seq(s.gens, s.value, and_(s.cond, c))
    if name == 'filter_map':
        m = seq_map(I, s, lambda x: call(args[1], x))
        v = I.force(m.value)
        c = opt_is_some(I, v)
        pv = opt_payload(I, v)
        return Seq(m.gens, pv, and_(m.cond, c))
    if name in ('take_while', 'skip_while', 'map_while', 'scan', 'skip_while'):
        return NI
    if name == 'flatten' or name == 'flat_map':
        m = s if name == 'flatten' else seq_map(I, s, lambda x: call(args[1], x))
        v = I.force(m.value)
        t = to_seq(I, v)
        if isinstance(v, (Adt, Cond)) and (not isinstance(v, Adt) or v.path == OPT):
            return Seq(m.gens, opt_payload(I, v), and_(m.cond, opt_is_some(I, v)))
        if isinstance(t, Seq):
            return Seq(list(m.gens) + list(t.gens), t.value, and_(m.cond, t.cond))
        return NI
    if name == 'sum':
        r = seq_sum(I, s)
        if r is not None:
            return r
        return NI
    if name == 'product':
        v = deref_all(I, s.value)
        if isinstance(v, E):
            v = sel(s.cond, v, ONE)
            for b, n in reversed(s.gens):
                v = red('prod', b, n, v, ONE) if b in free(v) else powi_or(v, n)
            return v
        return NI
    if name == 'any':
        return seq_any(I, s, lambda x: call(args[1], x))
    if name == 'all':
        r = seq_any(I, s, lambda x: notv(I, call(args[1], x)))
        return not_(r)
    if name in ('fold', 'rfold'):
        if name == 'rfold':
            return NI
        return fold(I, s, A[1], lambda a, x: call(args[2], a, x))
    if name == 'try_fold':
        return NI
    if name == 'reduce':
        f = flat1(I, s)
        if f.random:
            r = fold(I, seq_of(sub(f.n, ONE), lambda q: f.at(add(q, ONE))), f.at(ZERO), lambda a, x: call(args[1], a, x))
            return merge(ilt(ZERO, f.n), Some(r), NONE)
        return NI
    if name == 'for_each':
        def bodyf(x):
            call(args[1], x)
        I.run_seq(s, bodyf, (), I.site)
        return UNIT
    if name in ('collect', 'collect_vec', 'from_iter', 'to_vec', 'collect_tuple'):
        t = strip_ref(ret)
        if t[0] == 'adt' and t[1] in (RES, OPT):
            v = I.force(s.value)
            c = opt_is_some(I, v)
            bad = not_(c)
            bad = and_(s.cond, bad)
            for b, n in reversed(s.gens):
                bad = any_(b, n, bad)
            good = to_array(I, Seq(s.gens, opt_payload(I, v), s.cond))
            if t[1] == OPT:
                return merge(bad, NONE, Some(good))
            return merge(bad, Err(top('collect err')), Ok(good))
        return to_array(I, s)
    if name in ('max_by', 'min_by', 'max', 'min', 'max_by_key', 'min_by_key'):
        f = flat1(I, s)
        if f.random and name in ('max', 'min'):
            v = deref_all(I, f.value)
            if isinstance(v, E):
                b, n = f.gens[0]
                r = red('maxr' if name == 'max' else 'minr', b, n, v, NINF if name == 'max' else INF)
                if isint(v):
                    r = mk('int', r, 'N')
                return merge(ilt(ZERO, n), Some(r), NONE)
        if f.random and name in ('max_by', 'min_by'):
            b1, n = f.gens[0]
            b2 = bvar(n, 'q')
            x, y = f.value, f.at(b2)
            I_st = I.st
            o = call(args[1], x, y)
            vx = deref_all(I, x)
            lt = is_less(I, o)
            gt = is_less(I, o, 'Greater')
            if isinstance(vx, E) and lt is flt(vx, deref_all(I, y)):
                r = red('maxr' if name == 'max_by' else 'minr', b1, n, vx, NINF if name == 'max_by' else INF)
                return merge(ilt(ZERO, n), Some(r), NONE)
            lam = mk('lam', (b1, b2), (n, n), mk('tup', lt, gt))
            k = mk('app', 'argbest:' + name, lam)
            k = mk('int', k, 'N')
            return merge(ilt(ZERO, n), Some(f.at(k)), NONE)
        return NI
    if name == 'unzip':
        f = flat1(I, s)
        v = deref_all(I, f.value)
        if f.random and isinstance(v, Tup) and len(v.items) == 2:
            b, n = f.gens[0]
            return Tup([Arr([n], [b], v.items[0]), Arr([n], [b], v.items[1])])
        return NI
    if name == 'partition':
        return NI
    if name == 'dedup':
        return NI
    if name == 'is_empty':
        return not_(ilt(ZERO, s.n)) if s.random else NI
    if name == 'eq' and len(args) == 2:
        return NI
    return NI


def powi_or(v, n):
    return powi(v, n) if is_num(n) else mk('app', 'ipow', v, n)


def notv(I, v):
    v = I.force(v)
    if isinstance(v, E):
        return not_(v)
    return not_(reify(v, I))


def opt_is_some(I, v):
    v = I.force(v)
    if isinstance(v, Cond):
        return sel(v.c, opt_is_some(I, v.a), opt_is_some(I, v.b))
    if isinstance(v, Adt):
        return boolc(v.variant in ('Some', 'Ok'))
    if isinstance(v, E):
        return mk('isvar', v, 'Some')
    return top('is_some')


def opt_payload(I, v):
    v = I.force(v)
    if isinstance(v, Cond):
        sa, sb = opt_is_some(I, v.a), opt_is_some(I, v.b)
        if sa is FALSE:
            return opt_payload(I, v.b)
        if sb is FALSE:
            return opt_payload(I, v.a)
        return merge(v.c, opt_payload(I, v.a), opt_payload(I, v.b))
    if isinstance(v, Adt):
        return v.fields.get('0', top('payload'))
    if isinstance(v, E):
        return mk('payload', v, 'Some', '0')
    return top('payload')


def is_less(I, o, variant='Less'):
    """Ordering value -> condition that it is `variant`"""
    o = I.force(o)
    if isinstance(o, Cond):
        return sel(o.c, is_less(I, o.a, variant), is_less(I, o.b, variant))
    if isinstance(o, Adt):
        return boolc(o.variant == variant)
    if isinstance(o, E):
        return I.isvar(o, ORD, variant)
    return top('ordering')


def sort_by(I, ref, a, f, key=None):
    """ref: place holding a 1-d array"""
    n = a.shape[0]
    b1, b2 = bvar(n, 'u'), bvar(n, 'v')
    x, y = a.at(b1), a.at(b2)
    pc0 = list(I.pc)
    if key is not None:
        kx, ky = I.force(I.call_value(key, [x])), I.force(I.call_value(key, [y]))
        o = cmp_val(I, kx, ky)
    elif f is None:
        o = cmp_val(I, x, y)
    else:
        o = I.call_value(f, [x, y])
    I.pc = pc0
    lt, gt = is_less(I, o), is_less(I, o, 'Greater')
    lam = mk('lam', (b1, b2), (n, n), mk('tup', lt, gt))
    s = mk('app', 'sorted', reify(a, I), lam)
    info = {'shape': (n,)}
    if isinstance(a.body, E) and isint(a.body):
        info['esort'] = 'N'
        # sorted values are values of the array: bounded like it
        if a.body is a.bvs[0]:
            info['emax'] = n
    SYM_INFO.setdefault(s, {}).update(info)
    if isinstance(a.body, E) and isint(a.body):
        I.write(ref, mkarr([n], lambda i: mk('int', elem(s, i), 'N') if False else elem(s, i)))
        TYOF[s] = ('slice', ('prim', 'usize'))
    else:
        I.write(ref, mkarr([n], lambda i: elem(s, i)))


def cmp_val(I, x, y):
    x, y = I.force(x), I.force(y)
    if isinstance(x, Adt) and x.path.endswith('Reverse'):
        return cmp_val(I, y.fields['0'], x.fields['0'])
    if isinstance(x, Tup) and isinstance(y, Tup):
        o = EQUAL
        for a, b in reversed(list(zip(x.items, y.items))):
            c = cmp_val(I, a, b)
            if o is EQUAL:
                o = c
            else:
                o = merge(I.isvar(c, ORD, 'Equal') if isinstance(c, E) else FALSE, o, c)
        return o
    if isinstance(x, E) and isinstance(y, E):
        return ordering_of(I, x, y, isint(x))
    return top('cmp')


def vec(I, name, path, args, A, t0, ret):
    if name in ('new', 'with_capacity', 'with_capacity_in') and (not A or isinstance(A[0], E)):
        return Arr([ZERO], [bvar(ZERO, 'i')], ZERO)
    if name in ('from_elem',) and len(A) == 2:
        return mkarr([A[1]], lambda i: A[0])
    if name in ('into_vec', 'into_boxed_slice', 'box_assume_init_into_vec_unsafe') and A:
        return A[0]
    if name == 'from_fn':
        t = strip_ref(ret)
        try:
            n = num(int(str(t[2]).split('_')[0]))
        except Exception:
            return NI
        b = bvar(n, 'i')
        s = seq_map(I, Seq([(b, n)], b), lambda x: I.call_value(args[0], [x]))
        return to_array(I, s)
    if not A:
        return NI
    v = A[0]
    if isinstance(v, Cond):
        if not isinstance(args[0], MutRef):
            return I.cases(v, lambda x: vec(I, name, path, [x] + list(args[1:]), [x] + A[1:], t0, ret))
    if not isinstance(v, Arr):
        return NI
    ref = I.chase(args[0]) if isinstance(args[0], MutRef) else None
    n = v.shape[0]
    if name == 'len':
        return n
    if name == 'is_empty':
        return ieq(n, ZERO)
    if name == 'capacity':
        return mk('int', app('capacity', n), 'N')
    if name in ('as_slice', 'to_vec', 'into_boxed_slice', 'as_ref', 'into_vec', 'clone', 'borrow', 'to_owned', 'as_array'):
        return v
    if name in ('as_mut_slice', 'as_mut', 'deref_mut'):
        return args[0]
    if name in ('iter', 'into_iter'):
        return arr_iter(v)
    if name == 'iter_mut' and ref:
        return arr_iter_mut(I, ref, v)
    if name == 'push' and ref:
        push(I, ref, A[1])
        return UNIT
    if name == 'pop' and ref:
        last = Some(v.at(sub(n, ONE)))
        n1 = sub(n, ONE)
        lo = lower(n1)
        if lo is not None and lo >= 0:
            I.write(ref, mkarr([n1], lambda i: v.at(i)))
            return last
        return NI
    if name == 'truncate' and ref:
        k = imin(A[1], n)
        I.write(ref, mkarr([k], lambda i: v.at(i)))
        return UNIT
    if name == 'clear' and ref:
        I.write(ref, Arr([ZERO], [bvar(ZERO, 'i')], ZERO))
        return UNIT
    if name == 'resize' and ref:
        k = A[1]
        I.write(ref, mkarr([k], lambda i: merge(ilt(i, n), v.at(i), A[2])))
        return UNIT
    if name in ('extend_from_slice', 'append') and ref:
        extend(I, ref, arr_iter(A[1]))
        if name == 'append' and isinstance(args[1], MutRef):
            I.write(args[1], Arr([ZERO], [bvar(ZERO, 'i')], ZERO))
        return UNIT
    if name in ('reserve', 'reserve_exact', 'shrink_to_fit'):
        return UNIT
    if name == 'fill' and ref:
        I.write(ref, mkarr(v.shape, lambda *i: A[1]))
        return UNIT
    if name in ('copy_from_slice', 'clone_from_slice') and ref:
        ob(I, 'shapeeq', v.shape, A[1].shape, name)
        I.write(ref, mkarr(v.shape, lambda *i: A[1].at(*i)))
        return UNIT
    if name == 'swap' and ref:
        i, j = A[1], A[2]
        I.effect('index', (v.shape, (i,)))
        I.effect('index', (v.shape, (j,)))
        vi, vj = v.at(i), v.at(j)
        I.write(ref, Arr(v.shape, v.bvs, merge(ieq(v.bvs[0], i), vj, merge(ieq(v.bvs[0], j), vi, v.body))))
        return UNIT
    if name == 'reverse' and ref:
        I.write(ref, mkarr([n], lambda i: v.at(sub(sub(n, ONE), i))))
        return UNIT
    if name in ('sort_unstable_by', 'sort_by') and ref:
        sort_by(I, ref, v, args[1])
        return UNIT
    if name in ('sort', 'sort_unstable') and ref:
        sort_by(I, ref, v, None)
        return UNIT
    if name in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key') and ref:
        sort_by(I, ref, v, None, key=args[1])
        return UNIT
    if name in ('first', 'last'):
        k = ZERO if name == 'first' else sub(n, ONE)
        return merge(ilt(ZERO, n), Some(v.at(k)), NONE)
    if name == 'get' and isinstance(A[1], E):
        return merge(ilt(A[1], n), Some(v.at(A[1])), NONE)
    if name == 'get_mut' and isinstance(A[1], E) and ref:
        return merge(ilt(A[1], n), Some(ref.sub(('i', (A[1],)))), NONE)
    if name in ('get_unchecked', 'uget'):
        I.effect('index', (v.shape, (A[1],)))
        return v.at(A[1])
    if name == 'contains':
        b = v.bvs[0]
        x = A[1]
        body = v.body
        if isinstance(body, E) and isinstance(x, E):
            return any_(b, n, ieq(body, x) if isint(body) else feq(body, x))
    if name in ('concat',):
        s = arr_iter(v)
        t = to_seq(I, I.force(s.value))
        if isinstance(t, Seq):
            return to_array(I, Seq(list(s.gens) + list(t.gens), t.value, and_(s.cond, t.cond)))
    if name == 'windows' and isinstance(A[1], E):
        k = A[1]
        m = sub(imax(add(n, ONE), k), k)
        return seq_of(m, lambda q: mkarr([k], lambda i: v.at(add(q, i))))
    if name in ('chunks', 'chunks_exact') and isinstance(A[1], E):
        k = A[1]
        if name == 'chunks_exact' or imod(n, k) is ZERO:
            return seq_of(idiv(n, k), lambda q: mkarr([k], lambda i: v.at(add(expand(mul(q, k)), i))))
    if name == 'split_at' and isinstance(A[1], E):
        k = A[1]
        return Tup([mkarr([k], lambda i: v.at(i)), mkarr([sub(n, k)], lambda i: v.at(add(i, k)))])
    if name == 'map' and 'array' in path:
        return arr_map(I, v, lambda x: I.call_value(args[1], [x]))
    if name == 'drain':
        rg = A[1]
        if isinstance(rg, Adt) and ref:
            lo, hi = I.range_bounds(rg, n)
            if isinstance(lo, E) and isinstance(hi, E):
                k = range_len(lo, hi)
                out = seq_of(k, lambda q: v.at(add(q, lo)))
                I.write(ref, mkarr([sub(n, k)], lambda i: merge(ilt(i, lo), v.at(i), v.at(add(i, k)))))
                return out
    if name == 'swap_remove' or name == 'remove' or name == 'insert' or name == 'retain':
        return NI
    return NI


def zip_seq(I, z):
    parts = z.fields['0'].items
    shp = None
    for p in parts:
        v = I.force(p)
        if isinstance(v, Arr):
            shp = v.shape
            break
    if shp is None:
        return z
    bs = [bvar(s, 'q') for s in shp]
    its = []
    for p in parts:
        if isinstance(p, MutRef):
            its.append(p.sub(('i', tuple(bs))))
        elif isinstance(p, Arr):
            its.append(p.at(*bs))
        elif isinstance(p, Seq) and len(bs) == 1:
            its.append(flat1(I, p).at(bs[0]))
        elif isinstance(p, Adt) and p.path == '#index':
            its.append(bs[0] if len(bs) == 1 else Tup(bs))
        else:
            return z
    return Seq(list(zip(bs, shp)), Tup(its))


def nd(I, name, path, trait, args, A, t0, ret, targs):
    call = lambda f, *xs: I.call_value(f, list(xs))
    ref = I.chase(args[0]) if args and isinstance(args[0], MutRef) else None
    v = A[0] if A else None
    # ---- slicing machinery
    if name == 'new_unchecked' and 'slice' in path:
        return Adt('#sliceinfo', '#sliceinfo', {'0': A[0]})
    if name in ('next_in_dim', 'next_out_dim'):
        return mk('app', 'phantom')
    if name == 'f' and 'ShapeBuilder' in (trait or path):
        return Adt('#f', '#f', {'0': A[0]})
    if name == 'into_shape' and 'ShapeBuilder' in (trait or ''):
        return A[0]
    if name in ('Ix1', 'Ix2', 'Dim') and A:
        if name == 'Dim':
            return A[0]
        return A[0] if name == 'Ix1' else Tup(A)
    # ---- Zip
    if 'ndarray::zip' in path:
        if name in ('from', 'indexed'):
            its = [args[0]]
            if name == 'indexed':
                its = [Adt('#index', '#index', {}), args[0]]
            return Adt('#zip', '#zip', {'0': Tup(its)})
        if isinstance(v, Adt) and v.path == '#zip':
            if name in ('and', 'and_broadcast'):
                p0 = [I.force(x) for x in v.fields['0'].items if isinstance(I.force(x), Arr)]
                w = I.force(args[1])
                if p0 and isinstance(w, Arr):
                    ob(I, 'shapeeq', p0[0].shape, w.shape, 'Zip::and')
                return Adt('#zip', '#zip', {'0': Tup(v.fields['0'].items + (args[1],))})
            s = zip_seq(I, v)
            if isinstance(s, Seq):
                if name in ('for_each', 'apply'):
                    I.run_seq(s, lambda x: call(args[1], *x.items), (), I.site)
                    return UNIT
                if name in ('map_collect', 'apply_collect'):
                    r = seq_map(I, s, lambda x: call(args[1], *x.items))
                    if tuple(g[0] for g in r.gens) == tuple(g[0] for g in s.gens):
                        return Arr([g[1] for g in s.gens], [g[0] for g in s.gens], deref_all(I, r.value))
                if name == 'fold':
                    return fold(I, s, A[1], lambda a, x: call(args[2], a, *x.items))
                if name == 'all':
                    return not_(seq_any(I, s, lambda x: notv(I, call(args[1], *x.items))))
                if name == 'any':
                    return seq_any(I, s, lambda x: call(args[1], *x.items))
        return NI
    # ---- constructors
    if name in ('zeros', 'ones', 'default', 'from_elem', 'uninit', 'from_shape_fn', 'from_shape_simple_fn') and \
            'impl_constructors' in path:
        d, _ = dims_of(I, A[0]) if A else (None, False)
        if d is None:
            return NI
        if name in ('zeros', 'ones'):
            c = ZERO if name == 'zeros' else ONE
            return mkarr(d, lambda *i: c)
        if name == 'from_elem':
            return mkarr(d, lambda *i: A[1])
        if name == 'from_shape_fn':
            bs = [bvar(s, 'i') for s in d]
            s = seq_map(I, Seq(list(zip(bs, d)), bs[0] if len(bs) == 1 else Tup(bs)), lambda x: call(args[1], x))
            if tuple(g[0] for g in s.gens) == tuple(bs):
                return Arr(d, bs, deref_all(I, s.value))
            return reshape(I, to_array(I, s), list(d))
        if name == 'default':
            return mkarr(d, lambda *i: ZERO)
        return NI
    if name == 'eye':
        return mkarr([A[0], A[0]], lambda i, j: sel(ieq(i, j), ONE, ZERO))
    if name in ('from_diag',) and isinstance(A[0], Arr):
        a = A[0]
        return mkarr([a.shape[0], a.shape[0]], lambda i, j: sel(ieq(i, j), a.at(i), ZERO))
    if name == 'from_iter':
        s = to_seq(I, args[0])
        if isinstance(s, Seq):
            return to_array(I, s)
        return NI
    if name in ('from_vec', 'arr1', 'aview1', 'aview_mut1', 'rcarr1', 'arr2', 'aview2', 'from') and A:
        if isinstance(v, Arr):
            if isinstance(v.body, Arr) and name in ('arr2', 'aview2', 'from'):
                a = v
                m = a.body.shape[0]
                return mkarr([a.shape[0], m], lambda i, j: a.at(i).at(j))
            return v
        if isinstance(v, (Seq, Adt)):
            s = to_seq(I, v)
            return to_array(I, s) if isinstance(s, Seq) else NI
    if name in ('from_shape_vec', 'from_shape', 'from_shape_vec_unchecked'):
        d, fo = dims_of(I, A[0])
        a = A[1]
        if isinstance(a, Cond):
            return I.cases(a, lambda x: Ok(reshape(I, x, d, fo, name)))
        if d is not None and isinstance(a, Arr):
            r = reshape(I, a, d, fo, name)
            return Ok(r) if name != 'from_shape_vec_unchecked' else r
        return NI
    if name in ('linspace', 'range', 'logspace', 'geomspace'):
        return NI
    if path.endswith('::stack') or path.endswith('::concatenate') or name in ('stack', 'concatenate'):
        return NI
    if isinstance(v, Cond) and not ref:
        return I.cases(v, lambda x: nd(I, name, path, trait, [x] + list(args[1:]), [x] + A[1:], t0, ret, targs))
    if isinstance(v, Seq):
        if name in ('into_iter', 'iter', 'view', 'into_producer', 'clone'):
            return v
        if name == 'len':
            return v.n
    if not isinstance(v, Arr):
        return NI
    # ---- shape queries
    if name == 'len':
        return prod_(v.shape)
    if name == 'is_empty':
        return ieq(prod_(v.shape), ZERO)
    if name == 'shape':
        shp = v.shape
        return I.arr_of(list(shp))
    if name in ('dim', 'raw_dim'):
        if v.ndim == 1:
            return v.shape[0]
        return Tup(v.shape)
    if name in ('nrows',):
        return v.shape[0]
    if name in ('ncols',):
        return v.shape[1]
    if name == 'ndim':
        return num(v.ndim)
    if name == 'len_of':
        k = axis_of(I, A[1])
        return v.shape[k] if k is not None and k < v.ndim else NI
    if name == 'is_square':
        return ieq(v.shape[0], v.shape[1])
    # ---- views / copies
    if name in ('view', 'to_owned', 'into_owned', 'to_shared', 'into_shared', 'into_dyn', 'reborrow', 'cow', 'clone',
                'as_standard_layout', 'to_vec', 'into_raw_vec', 'into_dimensionality', 'as_slice', 'as_slice_memory_order',
                'to_slice', 'into_slice', 'deref', 'into_vec'):
        r = deref_all(I, v)
        if name in ('into_dimensionality',):
            return Ok(r)
        if name in ('as_slice', 'as_slice_memory_order', 'to_slice'):
            return Some(r)
        if name in ('into_raw_vec', 'to_vec') and v.ndim > 1:
            return to_array(I, arr_iter(v))
        return r
    if name in ('view_mut',) and ref:
        return ref
    if name in ('as_slice_mut', 'as_slice_memory_order_mut') and ref:
        return Some(ref)
    if name in ('t', 'reversed_axes'):
        if v.ndim == 1:
            return v
        if v.ndim == 2:
            return mkarr([v.shape[1], v.shape[0]], lambda i, j: v.at(j, i))
    if name in ('slice', 'slice_move', 'slice_collapse') and len(A) > 1:
        r = do_slice(I, v, A[1])
        return r if r is not None else NI
    if name == 'slice_mut' and ref:
        r = do_slice_mut(I, ref, v, A[1])
        return r if r is not None else NI
    if name in ('row', 'column', 'index_axis', 'index_axis_move', 'subview'):
        if name == 'row':
            k, i = 0, A[1]
        elif name == 'column':
            k, i = 1, A[1]
        else:
            k, i = axis_of(I, A[1]), A[2]
        if k is None:
            return NI
        ob(I, 'index', (v.shape[k],), (i,))
        return sub_view(v, k, i)
    if name in ('row_mut', 'column_mut', 'index_axis_mut') and ref:
        if name == 'row_mut':
            k, i = 0, A[1]
        elif name == 'column_mut':
            k, i = 1, A[1]
        else:
            k, i = axis_of(I, A[1]), A[2]
        if k is None:
            return NI
        ob(I, 'index', (v.shape[k],), (i,))
        return sub_view_mut(I, ref, v, k, i)
    if name in ('rows', 'genrows', 'outer_iter', 'columns', 'gencolumns', 'axis_iter', 'lanes'):
        if name in ('rows', 'genrows'):
            k, lane = v.ndim - 1, True
        elif name in ('columns', 'gencolumns'):
            k, lane = 0, True
        elif name == 'outer_iter':
            k, lane = 0, False
        elif name == 'axis_iter':
            k, lane = axis_of(I, A[1]), False
        else:
            k, lane = axis_of(I, A[1]), True
        if k is None:
            return NI
        if lane and v.ndim == 2:
            o = 1 - k
            return seq_of(v.shape[o], lambda q: lane_view(v, k, [q]))
        if lane and v.ndim == 1:
            return seq_of(ONE, lambda q: v)
        if not lane:
            if v.ndim == 1:
                return seq_of(v.shape[0], lambda q: v.at(q))
            return seq_of(v.shape[k], lambda q: sub_view(v, k, q))
        return NI
    if name in ('rows_mut', 'genrows_mut', 'outer_iter_mut', 'columns_mut', 'gencolumns_mut', 'axis_iter_mut') and ref and v.ndim == 2:
        if name in ('rows_mut', 'genrows_mut', 'outer_iter_mut'):
            k = 0
        elif name == 'axis_iter_mut':
            k = axis_of(I, A[1])
        else:
            k = 1
        if k is None:
            return NI
        return seq_of(v.shape[k], lambda q: sub_view_mut(I, ref, v, k, q))
    if name in ('axis_chunks_iter', 'exact_chunks', 'windows'):
        if name == 'windows' and v.ndim == 1:
            d, _ = dims_of(I, A[1])
            if d:
                k = d[0]
                m = sub(imax(add(v.shape[0], ONE), k), k)
                return seq_of(m, lambda q: mkarr([k], lambda i: v.at(add(q, i))))
        return NI
    if name in ('iter', 'into_iter'):
        return arr_iter(v)
    if name == 'iter_mut' and ref:
        return arr_iter_mut(I, ref, v)
    if name == 'indexed_iter':
        bs = [bvar(s, 'q') for s in v.shape]
        return Seq(list(zip(bs, v.shape)), Tup([bs[0] if len(bs) == 1 else Tup(bs), v.at(*bs)]))
    if name == 'indexed_iter_mut' and ref:
        bs = [bvar(s, 'q') for s in v.shape]
        return Seq(list(zip(bs, v.shape)), Tup([bs[0] if len(bs) == 1 else Tup(bs), ref.sub(('i', tuple(bs)))]))
    if name == 'insert_axis':
        k = axis_of(I, A[1])
        if k is None:
            return NI
        shp = list(v.shape)
        shp.insert(k, ONE)
        return mkarr(shp, lambda *i: v.at(*[x for j, x in enumerate(i) if j != k]))
    if name == 'remove_axis':
        k = axis_of(I, A[1])
        return sub_view(v, k, ZERO) if k is not None else NI
    if name in ('into_shape', 'to_shape', 'into_shape_with_order', 'into_shape_clone', 'reshape', 'broadcast'):
        d, fo = dims_of(I, A[1])
        if d is None:
            return NI
        if name == 'broadcast':
            if len(d) >= v.ndim:
                off = len(d) - v.ndim
                return Some(mkarr(d, lambda *i: bcast(v, d[off:], i[off:])))
            return NI
        r = reshape(I, v, d, fo, name)
        return r if name == 'reshape' else Ok(r)
    if name == 'into_flat' or name == 'flatten':
        return to_array(I, arr_iter(v))
    if name == 'select':
        k = axis_of(I, A[1])
        idx = A[2]
        if k is None or not isinstance(idx, Arr):
            return NI
        b = bvar(idx.shape[0], 'i')
        ob(I, 'index', (v.shape[k],), (idx.at(b),))
        shp = list(v.shape)
        shp[k] = idx.shape[0]

        def el(*i):
            i = list(i)
            i[k] = idx.at(i[k])
            return v.at(*i)
        return mkarr(shp, el)
    if name == 'diag_mut' and ref and v.ndim == 2:
        return ref.sub(('v', View([imin(*v.shape)], lambda i: (i, i), lambda i, j: (ieq(i, j), (i,)))))
    if name == 'diag':
        return mkarr([imin(*v.shape)], lambda i: v.at(i, i))
    if name in ('first', 'last'):
        if v.ndim == 1:
            n = v.shape[0]
            return merge(ilt(ZERO, n), Some(v.at(ZERO if name == 'first' else sub(n, ONE))), NONE)
    if name == 'get':
        d, _ = dims_of(I, A[1])
        if d:
            return merge(and_(*[ilt(x, s) for x, s in zip(d, v.shape)]), Some(v.at(*d)), NONE)
    if name in ('uget', 'get_unchecked'):
        d, _ = dims_of(I, A[1])
        I.effect('index', (v.shape, tuple(d)))
        return v.at(*d)
    if name == 'get_mut' and ref:
        d, _ = dims_of(I, A[1])
        if d:
            return merge(and_(*[ilt(x, s) for x, s in zip(d, v.shape)]), Some(ref.sub(('i', tuple(d)))), NONE)
    # ---- maps / folds
    if name in ('map', 'mapv', 'mapv_into', 'mapv_into_any', 'map_mut', 'map_into'):
        return arr_map(I, v, lambda x: call(args[1], x))
    if name in ('map_inplace', 'mapv_inplace', 'par_map_inplace', 'visit', 'for_each') and len(args) > 1:
        if name == 'mapv_inplace' and ref:
            I.write(ref, arr_map(I, v, lambda x: call(args[1], x)))
            return UNIT
        if name == 'map_inplace' and ref:
            I.run_seq(arr_iter_mut(I, ref, v), lambda x: call(args[1], x), (), I.site)
            return UNIT
        if name in ('visit', 'for_each'):
            I.run_seq(arr_iter(v), lambda x: call(args[1], x), (), I.site)
            return UNIT
    if name in ('map_axis', 'map_axis_mut'):
        k = axis_of(I, A[1])
        if k is None or v.ndim != 2:
            return NI
        o = 1 - k
        b = bvar(v.shape[o], 'j')
        s = seq_map(I, Seq([(b, v.shape[o])], lane_view(v, k, [b])), lambda x: call(args[2], x))
        return to_array(I, s)
    if name == 'fold_axis':
        k = axis_of(I, A[1])
        if k is None or v.ndim != 2:
            return NI
        o = 1 - k
        b = bvar(v.shape[o], 'j')
        s = seq_map(I, Seq([(b, v.shape[o])], lane_view(v, k, [b])),
                    lambda x: fold(I, arr_iter(x), A[2], lambda a, y: call(args[3], a, y)))
        return to_array(I, s)
    if name == 'fold':
        return fold(I, arr_iter(v), A[1], lambda a, x: call(args[2], a, x))
    if name == 'sum':
        return seq_sum(I, arr_iter(v))
    if name == 'product':
        return iterator(I, 'product', path, [arr_iter(v)], [v], t0, ret, targs)
    if name == 'mean':
        n = prod_(v.shape)
        return merge(ilt(ZERO, n), Some(div(seq_sum(I, arr_iter(v)), n)), NONE)
    if name in ('sum_axis', 'mean_axis'):
        k = axis_of(I, A[1])
        if k is None or v.ndim != 2:
            return NI
        r = mkarr([v.shape[1 - k]], lambda q: seq_sum(I, arr_iter(lane_view(v, k, [q]))))
        if name == 'mean_axis':
            n = v.shape[k]
            return merge(ilt(ZERO, n), Some(mkarr([v.shape[1 - k]], lambda q: div(r.at(q), n))), NONE)
        return r
    if name == 'dot':
        b = A[1]
        if isinstance(b, Cond):
            return I.cases(b, lambda x: dot(I, v, x))
        return dot(I, v, b)
    # ---- in-place
    if name == 'assign' and ref:
        w = A[1]
        if isinstance(w, Cond):
            w2 = Arr(v.shape, v.bvs, v.body)
            return NI
        if not isinstance(w, Arr):
            return NI
        ob(I, 'shapeeq', v.shape[v.ndim - w.ndim:], w.shape, 'assign')
        off = v.ndim - w.ndim
        I.write(ref, mkarr(v.shape, lambda *i: w.at(*i[off:])))
        return UNIT
    if name == 'assign_to' and isinstance(args[1], MutRef):
        w = I.read(args[1])
        ob(I, 'shapeeq', w.shape, v.shape, 'assign_to')
        I.write(args[1], mkarr(w.shape, lambda *i: v.at(*i)))
        return UNIT
    if name == 'fill' and ref:
        I.write(ref, mkarr(v.shape, lambda *i: A[1]))
        return UNIT
    if name == 'scaled_add' and ref:
        w = A[2]
        if not isinstance(w, Arr):
            return NI
        ob(I, 'shapeeq', v.shape[v.ndim - w.ndim:], w.shape, 'scaled_add')
        off = v.ndim - w.ndim
        a = A[1]
        I.write(ref, mkarr(v.shape, lambda *i: add(v.at(*i), mul(a, w.at(*i[off:])))))
        return UNIT
    if name == 'zip_mut_with' and ref:
        w = A[1]
        if not isinstance(w, Arr):
            return NI
        ob(I, 'shapeeq', v.shape, w.shape, 'zip_mut_with')
        bs = [bvar(s, 'q') for s in v.shape]
        I.run_seq(Seq(list(zip(bs, v.shape)), Tup([ref.sub(('i', tuple(bs))), w.at(*bs)])),
                  lambda x: call(args[2], *x.items), (), I.site)
        return UNIT
    if name == 'swap' and ref:
        d1, _ = dims_of(I, A[1])
        d2, _ = dims_of(I, A[2])
        I.effect('index', (v.shape, tuple(d1)))
        I.effect('index', (v.shape, tuple(d2)))
        x, y = v.at(*d1), v.at(*d2)
        c1 = and_(*[ieq(b, i) for b, i in zip(v.bvs, d1)])
        c2 = and_(*[ieq(b, i) for b, i in zip(v.bvs, d2)])
        I.write(ref, Arr(v.shape, v.bvs, merge(c1, y, merge(c2, x, v.body))))
        return UNIT
    if name == 'invert_axis' or name == 'swap_axes' and ref and v.ndim == 2:
        if name == 'swap_axes':
            I.write(ref, mkarr([v.shape[1], v.shape[0]], lambda i, j: v.at(j, i)))
            return UNIT
    return NI
