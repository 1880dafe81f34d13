"""Abstract values of the interpreter (structured values over the value graph)."""
from expr import *


class Val:
    pass


class Arr(Val):
    """n-dimensional array / Vec: element at (bvs) is `body` (any value)"""
    __slots__ = ('shape', 'bvs', 'body')

    def __init__(self, shape, bvs, body):
        self.shape = tuple(shape)
        self.bvs = tuple(bvs)
        self.body = body

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        if all(a is b for a, b in zip(idx, self.bvs)):
            return self.body
        return vsubst(self.body, dict(zip(self.bvs, idx)))

    def __repr__(self):
        return 'Arr%s' % show_val(self)


def mkarr(shape, f, hint='i'):
    bvs = [bvar(n, hint) for n in shape]
    return Arr(shape, bvs, f(*bvs))


class Tup(Val):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return show_val(self)


UNIT = Tup(())


class Adt(Val):
    __slots__ = ('path', 'variant', 'fields', 'ty')

    def __init__(self, path, variant, fields, ty=None):
        self.path = path
        self.variant = variant
        self.fields = fields
        self.ty = ty

    def __repr__(self):
        return show_val(self)


def Some(v):
    return Adt('core::option::Option', 'Some', {'0': v})


NONE = Adt('core::option::Option', 'None', {})


def Ok(v):
    return Adt('core::result::Result', 'Ok', {'0': v})


def Err(v):
    return Adt('core::result::Result', 'Err', {'0': v})


class Cond(Val):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return show_val(self)


class Clo(Val):
    __slots__ = ('fn', 'frame', 'tyenv')

    def __init__(self, fn, frame, tyenv):
        self.fn, self.frame, self.tyenv = fn, frame, tyenv


class FnV(Val):
    """function item value"""
    __slots__ = ('fn', 'tyenv')

    def __init__(self, fn, tyenv):
        self.fn, self.tyenv = fn, tyenv


class PyFn(Val):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Seq(Val):
    """iterator: comprehension {value | bv1<n1, bv2<n2, ..., cond}"""
    __slots__ = ('gens', 'cond', 'value')

    def __init__(self, gens, value, cond=TRUE):
        self.gens = tuple(gens)
        self.value = value
        self.cond = cond

    @property
    def random(self):
        return len(self.gens) == 1 and self.cond is TRUE

    @property
    def n(self):
        return self.gens[0][1]

    def at(self, i):
        b = self.gens[0][0]
        return self.value if i is b else vsubst(self.value, {b: i})

    def __repr__(self):
        return show_val(self)


class MutRef(Val):
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __eq__(self, o):
        return isinstance(o, MutRef) and o.cell == self.cell and o.path == self.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def sub(self, *p):
        return MutRef(self.cell, self.path + p)

    def __repr__(self):
        return '&mut %s%s' % (self.cell, list(self.path))


class View:
    """mutable view: new index -> base index, and its inverse"""
    __slots__ = ('shape', 'bvs', 'fwd', 'inv')

    def __init__(self, shape, fwd, inv):
        self.shape, self.fwd, self.inv = tuple(shape), fwd, inv


def seq_of(n, f, hint='q'):
    b = bvar(n, hint)
    return Seq([(b, n)], f(b))


# ------------------------------------------------------------------ substitution
def vsubst(v, m):
    if not m:
        return v
    if isinstance(v, E):
        return subst(v, m)
    if isinstance(v, Arr):
        sh = tuple(subst(s, m) for s in v.shape)
        if all(a is b for a, b in zip(sh, v.shape)):
            return Arr(sh, v.bvs, vsubst(v.body, m))
        nb = [bvar(s, b.args[1]) for s, b in zip(sh, v.bvs)]
        mm = dict(m)
        mm.update(zip(v.bvs, nb))
        return Arr(sh, nb, vsubst(v.body, mm))
    if isinstance(v, Tup):
        return Tup([vsubst(x, m) for x in v.items])
    if isinstance(v, Adt):
        return Adt(v.path, v.variant, {k: vsubst(x, m) for k, x in v.fields.items()}, v.ty)
    if isinstance(v, Cond):
        return merge(subst(v.c, m), vsubst(v.a, m), vsubst(v.b, m))
    if isinstance(v, Seq):
        gens = []
        mm = dict(m)
        for b, n in v.gens:
            n2 = subst(n, mm)
            if n2 is not n:
                nb = bvar(n2, b.args[1])
                mm[b] = nb
                gens.append((nb, n2))
            else:
                gens.append((b, n))
        return Seq(gens, vsubst(v.value, mm), subst(v.cond, mm))
    if isinstance(v, MutRef):
        return MutRef(v.cell, tuple(psubst(p, m) for p in v.path))
    return v


def psubst(p, m):
    if p[0] == 'i':
        return ('i', tuple(subst(x, m) for x in p[1]))
    if p[0] == 'v':
        w = p[1]
        return ('v', View(tuple(subst(s, m) for s in w.shape),
                          lambda *i, w=w: tuple(subst(x, m) for x in w.fwd(*i)),
                          lambda *i, w=w: (lambda r: (subst(r[0], m), tuple(subst(x, m) for x in r[1])))(w.inv(*i))))
    return p


def vreplace(v, f):
    """apply f to every E inside a value"""
    if isinstance(v, E):
        return f(v)
    if isinstance(v, Arr):
        return Arr([f(s) for s in v.shape], v.bvs, vreplace(v.body, f))
    if isinstance(v, Tup):
        return Tup([vreplace(x, f) for x in v.items])
    if isinstance(v, Adt):
        return Adt(v.path, v.variant, {k: vreplace(x, f) for k, x in v.fields.items()}, v.ty)
    if isinstance(v, Cond):
        return merge(f(v.c), vreplace(v.a, f), vreplace(v.b, f))
    if isinstance(v, Seq):
        return Seq(v.gens, vreplace(v.value, f), f(v.cond))
    return v


# ------------------------------------------------------------------ merging
def same_shape(a, b):
    return len(a.shape) == len(b.shape) and all(
        x is y or expand(sub(x, y)) is ZERO for x, y in zip(a.shape, b.shape))


def merge(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, E) and isinstance(b, E):
        return sel(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and same_shape(a, b):
        return Arr(a.shape, a.bvs, merge(c, a.body, b.at(*a.bvs)))
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape):
        return Arr([sel(c, x, y) for x, y in zip(a.shape, b.shape)], a.bvs, merge(c, a.body, b.at(*a.bvs)))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([merge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path and a.variant == b.variant \
            and set(a.fields) == set(b.fields):
        return Adt(a.path, a.variant, {k: merge(c, a.fields[k], b.fields[k]) for k in a.fields}, a.ty)
    if isinstance(a, MutRef) and a == b:
        return a
    if isinstance(a, Seq) and isinstance(b, Seq) and a.random and b.random and expand(sub(a.n, b.n)) is ZERO:
        return Seq(a.gens, merge(c, a.value, b.at(a.gens[0][0])))
    if isinstance(a, Clo) and isinstance(b, Clo) and a.fn is b.fn and a.frame is b.frame:
        return a
    if c.op == 'not':
        return Cond(c.args[0], b, a)
    return Cond(c, a, b)


# ------------------------------------------------------------------ reification
TYOF = {}


_bd_memo = {}


def binder_depth(e, memo=_bd_memo):
    if memo is None:
        memo = {}
    r = memo.get(e)
    if r is not None:
        return r
    d = 0
    for c in children(e):
        d = max(d, binder_depth(c, memo))
    if e.op in BINDERS or e.op == 'lam':
        d += 1
    memo[e] = d
    return d


_canon_memo = {}


def cbv(depth, pos, n):
    b = mk('bv', ('c', depth, pos, n.id), 'c')
    BV_N[b] = n
    return b


def canon(e):
    """rename bound variables canonically (alpha-equivalent nodes become identical)"""
    r = _canon_memo.get(e)
    if r is not None:
        return r
    if e.op in ('num', 'sym', 'bv', 'bool', 'inf', 'ninf', 'nan', 'top'):
        r = e
    elif e.op == 'lam':
        bvs, shp, body = e.args
        shp = tuple(canon(s) for s in shp)
        body = canon(body)
        d = binder_depth(body) + 1
        nb = tuple(cbv(d, i, s) for i, s in enumerate(shp))
        if nb == bvs and shp == e.args[1]:
            r = mk('lam', nb, shp, body)
        else:
            r = mk('lam', nb, shp, canon_re(subst(body, dict(zip(bvs, nb)))))
            # eta
        r = eta(r)
    elif e.op in BINDERS:
        bv, n, rest = e.args[0], canon(e.args[1]), [canon(a) if isinstance(a, E) else a for a in e.args[2:]]
        d = max([binder_depth(a) for a in rest if isinstance(a, E)] + [0]) + 1
        nb = cbv(d, 0, n)
        if nb is bv and n is e.args[1] and all(x is y for x, y in zip(rest, e.args[2:])):
            r = e
        else:
            rest = [canon_re(subst(a, {bv: nb})) if isinstance(a, E) else a for a in rest]
            r = mk(e.op, nb, n, *rest)
    else:
        args = tuple(_map_arg2(a, canon) for a in e.args)
        if args == e.args:
            r = e
        else:
            f = REBUILD.get(e.op)
            r = f(*args) if f else mk(e.op, *args)
    _canon_memo[e] = r
    return r


def canon_re(e):
    return canon(e)


def _map_arg2(a, f):
    if isinstance(a, E):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_arg2(x, f) for x in a)
    return a


def eta(l):
    bvs, shp, body = l.args
    if body.op == 'elem' and body.args[1:] == bvs and not (free(body.args[0]) & set(bvs)):
        a = body.args[0]
        ok = True
        for k, s in enumerate(shp):
            t = shape(a, k)
            if t is not s and expand(sub(t, s)) is not ZERO:
                ok = False
        if ok:
            return a
    return l


def reify(v, interp=None):
    if isinstance(v, E):
        return v
    if isinstance(v, Arr):
        b = reify(v.body, interp)
        l = mk('lam', v.bvs, v.shape, b)
        return eta(l)
    if isinstance(v, Tup):
        its = [reify(x, interp) for x in v.items]
        # eta for tuples
        if its and all(x.op == 'proj' and x.args[1] == i for i, x in enumerate(its)) and \
                len({x.args[0] for x in its}) == 1:
            return its[0].args[0]
        return mk('tup', *its)
    if isinstance(v, Adt):
        ks = tuple(v.fields)
        its = tuple(reify(v.fields[k], interp) for k in ks)
        if its and all(x.op == 'fld' and x.args[1] == k for k, x in zip(ks, its)) and \
                len({x.args[0] for x in its}) == 1:
            return its[0].args[0]
        return mk('adt', v.path, v.variant, ks, its)
    if isinstance(v, Cond):
        return sel(v.c, reify(v.a, interp), reify(v.b, interp))
    if isinstance(v, MutRef):
        if interp is not None:
            return reify(interp.read(v), interp)
        return mk('mutref', str(v.cell))
    if isinstance(v, Seq):
        if v.random:
            return reify(Arr([v.n], [v.gens[0][0]], v.value), interp)
        b = reify(v.value, interp)
        l = mk('lam', tuple(g[0] for g in v.gens), tuple(g[1] for g in v.gens), mk('tup', v.cond, b))
        return mk('app', 'seq', l)
    if isinstance(v, Clo):
        return mk('app', 'closure', v.fn['id'])
    if isinstance(v, FnV):
        return mk('app', 'fn', v.fn['path'])
    if isinstance(v, PyFn):
        return mk('app', 'pyfn', id(v))
    return top('reify:%s' % type(v).__name__)


def show_val(v):
    if isinstance(v, E):
        return show(v)
    if isinstance(v, Arr):
        return '[|%s| %s : %s]' % (','.join(show(b) for b in v.bvs), ','.join(show(s) for s in v.shape), show_val(v.body))
    if isinstance(v, Tup):
        return '(' + ', '.join(show_val(x) for x in v.items) + ')'
    if isinstance(v, Adt):
        return '%s::%s{%s}' % (v.path.split('::')[-1], v.variant,
                               ', '.join('%s: %s' % (k, show_val(x)) for k, x in v.fields.items()))
    if isinstance(v, Cond):
        return '{%s ? %s : %s}' % (show(v.c), show_val(v.a), show_val(v.b))
    if isinstance(v, Seq):
        return 'Seq<%s | %s if %s>' % (show_val(v.value), ','.join('%s<%s' % (show(b), show(n)) for b, n in v.gens), show(v.cond))
    return repr(v)


def deps(v, interp=None, seen=None):
    """free symbols a value depends on (through tops too)"""
    e = reify(v, interp)
    out = set()
    for x in walk(e):
        if x.op == 'sym':
            out.add(x)
    return out
