"""Abstract interpreter over THIR: computes the value graph, effects and loop summaries of functions."""
import sys
from fractions import Fraction
from expr import *
from values import *
from prog import tname

sys.setrecursionlimit(200000)

STD_ENUM_FIRST = {'core::option::Option': ('Some', 'None'), 'core::result::Result': ('Ok', 'Err')}


class Dead(Exception):
    pass


class Undecided(Exception):
    pass


class Effect:
    __slots__ = ('kind', 'pc', 'data', 'site', 'fn')

    def __init__(self, kind, pc, data, site, fn):
        self.kind, self.pc, self.data, self.site, self.fn = kind, pc, data, site, fn

    def __repr__(self):
        return '%s@%s:%s %s | %s' % (self.kind, self.site[0] if self.site else '?', self.site[1] if self.site else 0,
                                     self.data, self.pc)


class LoopRec:
    """a loop without closed form"""
    def __init__(self):
        self.bv = None          # iteration variable
        self.n = None           # trip count bound or None
        self.leaves = []        # dicts: ref, name, phi(value), init(value), step(value), out(value)
        self.exits = []         # (pc rel conds, {leaf index: value}, break value)
        self.returns = []
        self.pc = []
        self.site = None
        self.fn = None
        self.children = []
        self.effects = []
        self.solved = []
        self.marks = {}
        self.parent = None

    def __repr__(self):
        return '<loop %s n=%s leaves=%s>' % (self.site, self.n, [l['name'] for l in self.leaves])


class Frame:
    _n = 0

    def __init__(self, fn, parent=None, tyenv=None):
        Frame._n += 1
        self.id = Frame._n
        self.fn = fn
        self.parent = parent
        self.vars = {}
        self.names = {}
        self.tyenv = tyenv or {}
        self.returns = []
        self.labels = []
        self.ret_handlers = []

    def lookup(self, vid):
        f = self
        while f is not None:
            if vid in f.vars:
                return f.vars[vid]
            f = f.parent
        return None


class LoopCtx:
    def __init__(self, scopes):
        self.scopes = set(scopes or ())
        self.breaks = []
        self.conts = []


def strip_ref(t):
    while t and t[0] == 'ref':
        t = t[2]
    return t


INT_PRIMS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'}


def is_int_ty(t):
    t = strip_ref(t)
    return t[0] == 'prim' and t[1] in INT_PRIMS


def is_bool_ty(t):
    t = strip_ref(t)
    return t == ('prim', 'bool')


def arr_ndim(t):
    """number of dimensions of an ndarray / Vec / slice type, or None"""
    t = strip_ref(t)
    if t[0] == 'adt':
        if t[1] == 'ndarray::ArrayBase':
            d = t[2][-1]
            if d[0] == 'adt' and d[1].endswith('Dim') and d[2] and d[2][0][0] == 'array':
                return int(d[2][0][2])
            return None
        if t[1] == 'alloc::vec::Vec':
            return 1
    if t[0] in ('slice', 'array'):
        return 1
    return None


def arr_elem_ty(t):
    t = strip_ref(t)
    if t[0] == 'adt' and t[1] == 'ndarray::ArrayBase':
        r = t[2][0]
        if len(t[2]) >= 3:
            return t[2][-2] if False else _repr_elem(t[2][0])
        return _repr_elem(r)
    if t[0] == 'adt' and t[1] == 'alloc::vec::Vec':
        return t[2][0]
    if t[0] in ('slice', 'array'):
        return t[1]
    return ('param', 'F')


def _repr_elem(r):
    if r[0] == 'adt' and r[2]:
        return strip_ref(r[2][0])
    if r[0] == 'adt':
        return ('param', 'F')
    return ('param', 'F')


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.st = {}
        self.pc = []
        self.effects = []
        self.loops = []
        self.frames = []
        self.barriers = {}
        self.opaque_hook = None
        self.pycells = []             # (array of the caller, view through which it may be written)
        self.unknown = []
        self.depth = 0
        self.cellno = 0
        self.calls = set()
        self.site = None
        self.looprec_stack = []
        self.facts = []
        self.steps = 0
        self.max_steps = 4000000
        self.on_loop = None
        self.loop_log = []
        self.inlined = {}

    # ------------------------------------------------------------ cells / places
    def new_cell(self, v, name='t'):
        self.cellno += 1
        c = '%s.%d' % (name, self.cellno)
        self.st[c] = v
        return c

    def chase(self, ref):
        """follow cells that themselves hold a mutable reference / mutable view"""
        for _ in range(8):
            v = self.st.get(ref.cell)
            if not isinstance(v, MutRef):
                break
            ref = v.sub(*ref.path)
        return ref

    def read(self, ref):
        if ref.cell not in self.st:
            return top('dead cell')
        v = self.st[ref.cell]
        return self.read_path(v, ref.path)

    def read_path(self, v, path):
        for k, p in enumerate(path):
            if isinstance(v, MutRef):
                v = self.read(v)
            if isinstance(v, Cond):
                return merge(v.c, self.read_path(v.a, path[k:]), self.read_path(v.b, path[k:]))
            v = self.read1(v, p)
        return v

    def read1(self, v, p):
        if p[0] == 'f':
            return self.field(v, p[1])
        if p[0] == 'i':
            return self.index(v, p[1], record=False)
        if p[0] == 'v':
            w = p[1]
            if isinstance(v, Arr):
                return mkarr(w.shape, lambda *i: v.at(*w.fwd(*i)))
        return top('read1')

    def write(self, ref, val):
        if ref.cell not in self.st:
            self.st[ref.cell] = top('dead cell')
        old = self.st[ref.cell]
        self.st[ref.cell] = self.write_path(old, ref.path, val)

    def write_path(self, old, path, val):
        if not path:
            return val
        if isinstance(old, MutRef):
            self.write(old.sub(*path), val)
            return old
        if isinstance(old, Cond):
            return merge(old.c, self.write_path(old.a, path, val), self.write_path(old.b, path, val))
        p, rest = path[0], path[1:]
        if p[0] == 'f':
            if isinstance(old, Adt):
                f = dict(old.fields)
                f[p[1]] = self.write_path(f.get(p[1], top('nofield')), rest, val)
                return Adt(old.path, old.variant, f, old.ty)
            if isinstance(old, Tup):
                its = list(old.items)
                i = int(p[1])
                its[i] = self.write_path(its[i], rest, val)
                return Tup(its)
            if isinstance(old, E):
                return top('write field of opaque', old, reify(val, self))
            return top('write field')
        if p[0] == 'i':
            idx = p[1]
            if isinstance(old, Arr):
                if len(idx) != old.ndim:
                    return top('write index rank')
                nv = self.write_path(old.at(*idx), rest, val) if rest else val
                c = and_(*[ieq(b, i) for b, i in zip(old.bvs, idx)])
                # the written value at this index
                return Arr(old.shape, old.bvs, merge(c, nv, old.body))
            return top('write index', reify(old, self), reify(val, self))
        if p[0] == 'v':
            w = p[1]
            if isinstance(old, Arr):
                if rest:
                    cur = mkarr(w.shape, lambda *i: old.at(*w.fwd(*i)))
                    nv = self.write_path(cur, rest, val)
                else:
                    nv = val
                if not isinstance(nv, Arr):
                    return top('write view')
                c, vi = w.inv(*old.bvs)
                return Arr(old.shape, old.bvs, merge(c, nv.at(*vi), old.body))
            return top('write view')
        return top('write')

    def force(self, v):
        """read through mutable references"""
        while isinstance(v, MutRef):
            v = self.read(v)
        return v

    def concrete(self, v):
        return self.force(v)

    # ------------------------------------------------------------ effects
    def effect(self, kind, data):
        self.effects.append(Effect(kind, list(self.pc), data, self.site,
                                   self.frames[-1].fn['path'] if self.frames else None))

    def note_unknown(self, what):
        self.unknown.append((what, self.site, self.frames[-1].fn['path'] if self.frames else None))

    # ------------------------------------------------------------ branching
    def implied(self, c):
        if c is TRUE or c is FALSE:
            return c is TRUE
        n = not_(c)
        for p in self.pc:
            if p is c:
                return True
            if p is n:
                return False
            if p.op == 'and':
                if c in p.args:
                    return True
                if n in p.args:
                    return False
            if p.op == 'not' and p.args[0].op == 'or':
                if c in p.args[0].args:
                    return False
                if n in [not_(x) for x in p.args[0].args]:
                    return True
        if c.op == 'and':
            rs = [self.implied(x) for x in c.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        if c.op == 'or':
            rs = [self.implied(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if c.op == 'not':
            r = self.implied(c.args[0])
            return None if r is None else not r
        return None

    def branch(self, c, fa, fb):
        k = self.implied(c)
        if k is True:
            return fa()
        if k is False:
            return fb()
        st0, pc0 = self.st, list(self.pc)
        L = len(pc0)
        res = []
        for cond, f in ((c, fa), (not_(c), fb)):
            self.st = dict(st0)
            self.pc = pc0 + [cond]
            try:
                v = f()
                res.append((v, self.st, self.pc[L + 1:]))
            except Dead:
                res.append(None)
        a, b = res
        if a is None and b is None:
            self.st, self.pc = st0, pc0
            raise Dead()
        if a is None:
            self.st = b[1]
            self.pc = pc0 + [not_(c)] + b[2]
            return b[0]
        if b is None:
            self.st = a[1]
            self.pc = pc0 + [c] + a[2]
            return a[0]
        self.st = self.merge_state(c, a[1], b[1])
        extra = sel(c, and_(*a[2]), and_(*b[2]))
        self.pc = pc0 + ([extra] if extra is not TRUE else [])
        return merge(c, a[0], b[0])

    def merge_state(self, c, a, b):
        if a is b:
            return a
        out = dict(b)
        for k, va in a.items():
            vb = b.get(k)
            if vb is None:
                out[k] = va
            elif va is not vb:
                out[k] = merge(c, va, vb)
        return out

    def cases(self, v, f):
        """apply f to the concrete alternatives of v"""
        v = self.force(v)
        if isinstance(v, Cond):
            return self.branch(v.c, lambda: self.cases(v.a, f), lambda: self.cases(v.b, f))
        return f(v)

    # ------------------------------------------------------------ opaque values
    def opaque(self, e, ty, shape_=None):
        """wrap graph node e of type ty as a structured value"""
        t = strip_ref(ty) if ty else ('param', '?')
        nd = arr_ndim(t)
        if nd is not None:
            et = arr_elem_ty(t)
            sh = tuple(shape_) if shape_ is not None else tuple(shape(e, k) for k in range(nd))
            bvs = [bvar(s, 'i') for s in sh]
            body = self.opaque(elem(e, *bvs), et)
            return Arr(sh, bvs, body)
        if t[0] == 'tuple':
            return Tup([self.opaque(mk('proj', e, i), x) for i, x in enumerate(t[1])])
        if t[0] == 'prim' or t[0] in ('param', 'proj'):
            if t[0] == 'prim' and t[1] in INT_PRIMS and not isint(e):
                e = mk('int', e, 'N' if t[1][0] == 'u' else 'Z')
            TYOF.setdefault(e, t)
            return e
        if t[0] == 'adt':
            a = self.prog.adts.get(t[1])
            if a and a['kind'] == 'Struct':
                env = self.adt_env(t)
                fs = {}
                for fl in a['variants'][0]['fields']:
                    fs[fl['name']] = self.opaque(mk('fld', e, fl['name']), self.prog.tsubst(fl['ty'], env))
                return Adt(t[1], a['variants'][0]['name'], fs, t)
        TYOF.setdefault(e, t)
        return e

    def adt_env(self, t):
        a = self.prog.adts.get(t[1])
        if not a:
            return {}
        # generic parameter names are unknown in the dump: infer by order of appearance
        names = a.get('generics')
        if names:
            return dict(zip(names, t[2]))
        order = []

        def go(x):
            if x[0] == 'param' and x[1] not in order:
                order.append(x[1])
            for y in x[1:]:
                if isinstance(y, tuple):
                    if y and isinstance(y[0], str):
                        go(y)
                    else:
                        for z in y:
                            if isinstance(z, tuple):
                                go(z)
        for v in a['variants']:
            for fl in v['fields']:
                go(fl['ty'])
        return dict(zip(order, t[2])) if len(order) == len(t[2]) else {}

    def symbolic(self, ty, name):
        """a fully symbolic input of type ty"""
        t = strip_ref(ty)
        nd = arr_ndim(t)
        if nd is not None:
            et = arr_elem_ty(t)
            s = sym(name, 'A', esort='N' if is_int_ty(et) and et[1][0] == 'u' else 'R')
            return self.opaque(s, t)
        if t[0] == 'prim':
            if t[1] in INT_PRIMS:
                return sym(name, 'N' if t[1][0] == 'u' else 'Z')
            if t[1] == 'bool':
                return sym(name, 'B')
            return sym(name, 'R')
        if t[0] == 'tuple':
            return Tup([self.symbolic(x, '%s.%d' % (name, i)) for i, x in enumerate(t[1])])
        if t[0] == 'adt':
            a = self.prog.adts.get(t[1])
            if a and a['kind'] == 'Struct':
                env = self.adt_env(t)
                fs = {}
                for fl in a['variants'][0]['fields']:
                    fs[fl['name']] = self.symbolic(self.prog.tsubst(fl['ty'], env), name + '.' + fl['name'])
                return Adt(t[1], a['variants'][0]['name'], fs, t)
        e = sym(name, 'R' if t == ('param', 'F') else 'O')
        TYOF.setdefault(e, t)
        return e

    # ------------------------------------------------------------ field / index
    def field(self, v, name):
        v = self.force(v)
        if isinstance(v, Adt):
            if name in v.fields:
                return v.fields[name]
            return top('field %s of %s' % (name, v.path))
        if isinstance(v, Tup):
            try:
                return v.items[int(name)]
            except (ValueError, IndexError):
                return top('tuple field')
        if isinstance(v, Cond):
            return merge(v.c, self.field(v.a, name), self.field(v.b, name))
        if isinstance(v, E):
            return mk('fld', v, name)
        return top('field')

    def index(self, v, idx, record=True):
        v = self.force(v)
        if isinstance(v, Cond):
            return merge(v.c, self.index(v.a, idx, record), self.index(v.b, idx, record))
        if isinstance(v, Arr):
            if len(idx) != v.ndim:
                return top('index rank')
            if record:
                self.effect('index', (v.shape, idx))
            return v.at(*idx)
        if isinstance(v, E):
            return elem(v, *idx)
        return top('index')

    # ------------------------------------------------------------ calls of functions
    def call_fn(self, f, args, tyenv):
        body = self.prog.body(f)
        if body is None:
            self.note_unknown('no body ' + f['path'])
            return top('nobody')
        if len(self.frames) > 60 or sum(1 for fr in self.frames if fr.fn is f) > 2:
            self.note_unknown('recursion ' + f['path'])
            return top('recursion')
        fr = Frame(f, None, tyenv)
        self.inlined[f['path']] = self.inlined.get(f['path'], 0) + 1
        return self.run_frame(fr, [p for p in f['params']], args, body)

    def call_closure(self, clo, args):
        f = clo.fn
        fr = Frame(f, clo.frame, clo.tyenv)
        ps = [p for p in f['params']]
        if ps and ps[0]['p'] is None:
            ps = ps[1:]
        return self.run_frame(fr, ps, args, self.prog.body(f))

    def run_frame(self, fr, params, args, body):
        self.frames.append(fr)
        site0 = self.site
        base = len(self.pc)
        pc0 = list(self.pc)
        try:
            for p, a in zip(params, args):
                if p['p'] is None:
                    continue
                self.bind_pat(p['p'], a, fr)
            try:
                v = self.eval(body)
                fr.returns.append((list(self.pc), self.st, v))
            except Dead:
                pass
        finally:
            self.frames.pop()
            self.site = site0
        if not fr.returns:
            self.pc = pc0
            raise Dead()
        rets = fr.returns
        pc, st, v = rets[-1]
        keep = pc[base:] if len(rets) == 1 else []
        for (pc_i, st_i, v_i) in reversed(rets[:-1]):
            c = and_(*pc_i[base:])
            st = self.merge_state(c, st_i, st)
            v = merge(c, v_i, v)
        self.st = st
        self.pc = pc0 + keep
        return v

    def bind_pat(self, p, v, fr, place=None):
        c, binds = self.match_pat(p, v, place)
        for vid, name, val in binds:
            self.bind(fr, vid, name, val)
        return c

    def bind(self, fr, vid, name, val):
        cell = '%s@%d:%s' % (name, fr.id, vid)
        fr.vars[vid] = cell
        if isinstance(val, Seq) and val.random:
            val = Adt('#iter', '#iter', {'seq': val, 'pos': ZERO})
        self.st[cell] = val

    # ------------------------------------------------------------ patterns
    def match_pat(self, p, v, place=None):
        k = p['k']
        if k in ('Wild', 'Never'):
            return TRUE, []
        if k == 'Bind':
            if p.get('byref') and p.get('bymut', False) is not False or (p.get('byref') and p.get('mutref')):
                pass
            val = v
            if p.get('byref') and place is not None and p['ty'][0] == 'ref' and p['ty'][1]:
                val = place
            elif p.get('byref') and p['ty'][0] == 'ref' and p['ty'][1] and place is None and not isinstance(v, MutRef):
                val = MutRef(self.new_cell(v))
            out = [(p['id'], p['name'], val)]
            if p.get('sub'):
                c, b = self.match_pat(p['sub'], v, place)
                return c, out + b
            return TRUE, out
        if k == 'Deref':
            if isinstance(v, MutRef):
                # shared refs are erased: a MutRef is dereferenced only for &mut patterns
                pl = v
                if p['ty'][0] == 'ref' and p['ty'][1] or True:
                    return self.match_pat(p['sub'], self.read(v), pl)
            return self.match_pat(p['sub'], v, place)
        if isinstance(v, MutRef):
            place, v = v, self.read(v)
        if k == 'Leaf':
            conds, out = [], []
            if isinstance(v, Cond):
                return self.match_cond(p, v, place)
            for n, q in p['fields']:
                c, b = self.match_pat(q, self.field(v, n), place.sub(('f', n)) if place is not None else None)
                conds.append(c)
                out += b
            return and_(*conds), out
        if k == 'Variant':
            if isinstance(v, Cond):
                return self.match_cond(p, v, place)
            if isinstance(v, Adt):
                if v.variant != p['variant']:
                    return FALSE, self.dummy_binds(p)
                conds, out = [], []
                for n, q in p['fields']:
                    c, b = self.match_pat(q, v.fields.get(n, top('payload')),
                                          place.sub(('f', n)) if place is not None else None)
                    conds.append(c)
                    out += b
                return and_(*conds), out
            if isinstance(v, E):
                c = self.isvar(v, p['path'], p['variant'])
                conds, out = [c], []
                for n, q in p['fields']:
                    pv = self.payload(v, p['variant'], n, q['ty'])
                    cc, b = self.match_pat(q, pv)
                    conds.append(cc)
                    out += b
                return and_(*conds), out
            return top('variant'), self.dummy_binds(p)
        if k == 'Const':
            return self.match_const(p, v), []
        if k == 'Or':
            cs, bs = [], []
            for q in p['ps']:
                c, b = self.match_pat(q, v, place)
                cs.append(c)
                bs.append(b)
            out = []
            for i, (vid, name, val) in enumerate(bs[0]):
                cur = [x for b in bs[1:] for x in b if x[1] == name]
                for c, x in zip(cs[:-1][::-1], [val]):
                    pass
                r = val
                if cur:
                    r = merge(cs[0], val, cur[0][2])
                out.append((vid, name, r))
            return or_(*cs), out
        if k == 'Range':
            return top('range pattern', reify(v, self)), []
        if k == 'Slice':
            out, conds = [], []
            v = self.force(v)
            if isinstance(v, Arr) and v.ndim == 1 and 'slice' not in p:
                n = len(p['pre']) + len(p['suf'])
                conds.append(ieq(v.shape[0], num(n)))
                for i, q in enumerate(p['pre'] + p['suf']):
                    c, b = self.match_pat(q, v.at(num(i)))
                    conds.append(c)
                    out += b
                return and_(*conds), out
            return top('slice pattern', reify(v, self)), self.dummy_binds(p)
        self.note_unknown('pattern ' + k)
        return top('pattern'), self.dummy_binds(p)

    def match_cond(self, p, v, place):
        c1, b1 = self.match_pat(p, v.a, place)
        c2, b2 = self.match_pat(p, v.b, place)
        c = sel(v.c, c1, c2)
        if c1 is FALSE:
            return c, b2
        if c2 is FALSE:
            return c, b1
        d2 = {x[0]: x for x in b2}
        return c, [(vid, n, merge(v.c, val, d2[vid][2])) for vid, n, val in b1]

    def dummy_binds(self, p):
        out = []

        def go(q):
            if not isinstance(q, dict):
                return
            if q.get('k') == 'Bind':
                out.append((q['id'], q['name'], top('unmatched')))
            for x in ('sub',):
                if x in q and q[x]:
                    go(q[x])
            for _, y in q.get('fields', []):
                go(y)
            for y in q.get('ps', []) + q.get('pre', []) + q.get('suf', []):
                go(y)
        go(p)
        return out

    def isvar(self, v, path, variant):
        if v.op == 'top':
            return top('isvar', v)
        if v.op in ('ord', 'iord'):
            a, b = v.args
            l, q = (flt, feq) if v.op == 'ord' else (ilt, ieq)
            return {'Less': lambda: l(a, b), 'Greater': lambda: l(b, a), 'Equal': lambda: q(a, b)}[variant]()
        if v.op == 'sel' and path == 'core::cmp::Ordering':
            return sel(v.args[0], self.isvar(v.args[1], path, variant), self.isvar(v.args[2], path, variant))
        if v.op == 'adt':
            return boolc(v.args[1] == variant)
        first = STD_ENUM_FIRST.get(path)
        if first:
            c = mk('isvar', v, first[0])
            return c if variant == first[0] else not_(c)
        a = self.prog.adts.get(path)
        if a and len(a['variants']) == 2:
            f = a['variants'][0]['name']
            c = mk('isvar', v, f)
            return c if variant == f else not_(c)
        return mk('isvar', v, variant)

    def payload(self, v, variant, n, ty):
        return self.opaque(mk('payload', v, variant, n), ty)

    def match_const(self, p, v):
        s = p['v']
        v = self.force(v)
        if not isinstance(v, E):
            return top('const pattern')
        if s in ('true', 'false'):
            return v if s == 'true' else not_(v)
        t = strip_ref(p['ty'])
        m = s
        for suf in INT_PRIMS | {'f64', 'f32'}:
            if m.endswith(suf):
                m = m[:-len(suf)].rstrip('_')
        try:
            x = num(Fraction(m.replace('_', '')))
        except (ValueError, ZeroDivisionError):
            return mk('constpat', v, s)
        if is_int_ty(t):
            return ieq(v, x)
        return feq(v, x)

    # ------------------------------------------------------------ expressions
    def ty(self, e):
        t = e['ty']
        env = self.frames[-1].tyenv
        return self.prog.tsubst(t, env) if env else t

    def eval(self, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('step budget')
        if e is None:
            return UNIT
        sp = e.get('sp')
        if sp:
            self.site = tuple(sp)
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            self.note_unknown('expr ' + e['k'] + ' ' + str(e.get('what', '')))
            return top('expr ' + e['k'])
        return m(e)

    def place(self, e):
        """MutRef for a place expression (a temporary cell for rvalues)"""
        k = e['k']
        if k == 'Var':
            c = self.frames[-1].lookup(e['id'])
            if c is None:
                self.note_unknown('var ' + e['id'])
                return MutRef(self.new_cell(top('var')))
            return MutRef(c)
        if k == 'Deref':
            v = self.eval(e['e'])
            if isinstance(v, MutRef):
                if self.ty(e['e'])[0] == 'ref' and not self.ty(e['e'])[1]:
                    # & &mut T: the reference itself is the pointee
                    c = MutRef(self.new_cell(v))
                    return c
                return v
            if isinstance(v, Cond) and isinstance(v.a, MutRef):
                # reference chosen by a condition: materialise as value
                return MutRef(self.new_cell(merge(v.c, self.force(v.a), self.force(v.b))))
            return MutRef(self.new_cell(v))
        if k == 'Field':
            b = self.place(e['e'])
            return b.sub(('f', e['name']))
        if k == 'Index':
            b = self.place(e['e'])
            i = self.eval(e['i'])
            return self.index_place(b, i)
        if k in ('Reborrow', 'Borrow'):
            pass
        v = self.eval(e)
        if isinstance(v, MutRef) and self.ty(e)[0] != 'ref':
            return v        # a mutable view held by value
        return MutRef(self.new_cell(v))

    def index_place(self, b, i):
        i = self.force(i)
        if isinstance(i, E):
            idx = (i,)
        elif isinstance(i, Tup):
            idx = tuple(self.force(x) for x in i.items)
        elif isinstance(i, Arr) and i.ndim == 1 and is_num(i.shape[0]):
            idx = tuple(i.at(num(k)) for k in range(int(val(i.shape[0]))))
        elif isinstance(i, Adt) and 'Range' in i.path:
            arr = self.read(b)
            lo, hi = self.range_bounds(i, arr.shape[0] if isinstance(arr, Arr) else top('len'))
            n = sub(hi, lo)
            w = View([n], lambda q: (add(q, lo),), lambda q: (and_(ile(lo, q), ilt(q, hi)), (sub(q, lo),)))
            return b.sub(('v', w))
        else:
            return MutRef(self.new_cell(top('index')))
        arr = self.read(b)
        if isinstance(arr, Arr):
            self.effect('index', (arr.shape, idx))
        return b.sub(('i', idx))

    def range_bounds(self, r, n):
        p = r.path.split('::')[-1]
        lo = self.force(r.fields.get('start', ZERO))
        hi = self.force(r.fields.get('end', n))
        if p == 'RangeInclusive':
            hi = add(hi, ONE)
        if p == 'RangeToInclusive':
            hi = add(hi, ONE)
        return lo, hi

    def x_Var(self, e):
        c = self.frames[-1].lookup(e['id'])
        if c is None:
            self.note_unknown('var ' + e['id'])
            return top('var ' + e['id'])
        return self.st.get(c, top('uninit'))

    def x_Deref(self, e):
        v = self.eval(e['e'])
        t = self.ty(e['e'])
        if isinstance(v, MutRef):
            if t[0] == 'ref' and not t[1]:
                return v
            return self.read(v)
        if isinstance(v, Cond) and isinstance(v.a, MutRef):
            return merge(v.c, self.force(v.a), self.force(v.b))
        return v

    def x_Field(self, e):
        # avoid copying whole place semantics: evaluate as value
        b = self.eval(e['e'])
        return self.field(b, e['name'])

    def x_Index(self, e):
        b = self.place(e['e'])
        i = self.eval(e['i'])
        return self.read(self.index_place(b, i))

    def x_Borrow(self, e):
        if e['mut']:
            return self.place(e['e'])
        return self.eval(e['e'])

    def x_Reborrow(self, e):
        if e['mut']:
            return self.place(e['e'])
        return self.eval(e['e'])

    def x_RawBorrow(self, e):
        self.effect('unsafe', 'raw borrow')
        return self.eval(e['e'])

    def x_NeverToAny(self, e):
        self.eval(e['e'])
        raise Dead()

    def x_PtrCoerce(self, e):
        return self.eval(e['e'])

    def x_Zst(self, e):
        return FnV(e['fn'], self.frames[-1].tyenv)

    def x_Closure(self, e):
        f = self.prog.fns.get(e['id'])
        return Clo(f, self.frames[-1], self.frames[-1].tyenv)

    def x_Lit(self, e):
        lit, v = e.get('lit'), e.get('v')
        if lit == 'bool':
            return boolc(v in (True, 'true'))
        if lit in ('int', 'float'):
            x = Fraction(str(v).replace('_', ''))
            if e.get('neg'):
                x = -x
            return num(x)
        if lit == 'str':
            return mk('str', v)
        return mk('lit', str(lit), str(v))

    def x_NonHirLit(self, e):
        v = e.get('v')
        try:
            return num(Fraction(str(v)))
        except Exception:
            return mk('lit', 'nonhir', str(v))

    def x_Const(self, e):
        p = e['path']
        if p.endswith('consts::E'):
            return sym('const:e', 'R')
        if p.endswith('consts::PI'):
            return sym('const:pi', 'R')
        if p.endswith('::INFINITY'):
            return INF
        if p.endswith('::NEG_INFINITY'):
            return NINF
        if p.endswith('::NAN'):
            return NAN
        f = self.prog.fns.get(e.get('id')) or self.prog.bypath.get(p)
        if f is not None and f.get('_raw') is not None:
            return self.call_fn(f, [], {})
        TYOF.setdefault(sym('const:' + p, 'N' if is_int_ty(self.ty(e)) else 'R'), self.ty(e))
        return sym('const:' + p, 'N' if is_int_ty(self.ty(e)) else 'R')

    def x_Static(self, e):
        self.effect('static', e['path'])
        return top('static ' + e['path'])

    def x_ThreadLocal(self, e):
        self.effect('static', e['path'])
        return top('threadlocal')

    def x_Tuple(self, e):
        return Tup([self.eval(x) for x in e['es']])

    def x_Array(self, e):
        its = [self.eval(x) for x in e['es']]
        return self.arr_of(its)

    def arr_of(self, its):
        n = num(len(its))
        b = bvar(n, 'i')
        if not its:
            return Arr([n], [b], ZERO)
        v = its[-1]
        for k in range(len(its) - 2, -1, -1):
            v = merge(ieq(b, num(k)), its[k], v)
        return Arr([n], [b], v)

    def x_Repeat(self, e):
        v = self.eval(e['e'])
        try:
            n = num(int(str(e['n']).split('_')[0]))
        except ValueError:
            n = fresh('repeat', 'N')
        return mkarr([n], lambda i: v)

    def x_Adt(self, e):
        fs = {}
        for n, x in e['fields']:
            fs[n] = self.eval(x)
        if e.get('base') is not None:
            b = self.force(self.eval(e['base']))
            if isinstance(b, Adt):
                f2 = dict(b.fields)
                f2.update(fs)
                fs = f2
            else:
                self.note_unknown('adt base')
        return Adt(e['path'], e['variant'], fs, self.ty(e))

    def x_Cast(self, e):
        v = self.force(self.eval(e['e']))
        src, dst = self.ty(e['e']), self.ty(e)
        if isinstance(v, E) and is_bool_ty(src) and is_int_ty(dst):
            return sel(v, ONE, ZERO)
        if isinstance(v, E) and is_int_ty(dst) and not is_int_ty(src) and src[0] == 'prim' and src[1] in ('f32', 'f64'):
            return v if is_num(v) and val(v).denominator == 1 else mk('app', 'trunc', v)
        if isinstance(v, E) and is_int_ty(dst) and v.op in ('elem', 'fld', 'payload', 'proj', 'app'):
            if not isint(v):
                return mk('int', v, 'N' if strip_ref(dst)[1][0] == 'u' else 'Z')
        if isinstance(v, E) and v.op == 'int' and is_int_ty(dst) and strip_ref(dst)[1][0] == 'u' and v.args[1] == 'Z':
            return mk('int', v.args[0], 'N')
        return v

    def x_Unary(self, e):
        v = self.force(self.eval(e['e']))
        if not isinstance(v, E):
            return top('unary')
        if e['op'] == 'Not':
            return not_(v) if is_bool_ty(self.ty(e)) else top('bitnot', v)
        return neg(v)

    def x_Binary(self, e):
        a = self.force(self.eval(e['l']))
        b = self.force(self.eval(e['r']))
        return self.binop(e['op'], a, b, self.ty(e['l']))

    def binop(self, op, a, b, ty):
        if isinstance(a, Cond):
            return merge(a.c, self.binop(op, a.a, b, ty), self.binop(op, a.b, b, ty))
        if isinstance(b, Cond):
            return merge(b.c, self.binop(op, a, b.a, ty), self.binop(op, a, b.b, ty))
        if not (isinstance(a, E) and isinstance(b, E)):
            if op in ('Eq', 'Ne'):
                c = self.val_eq(a, b)
                return c if op == 'Eq' else not_(c)
            return top('binop')
        it = is_int_ty(ty)
        bt = is_bool_ty(ty)
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            if it and strip_ref(ty)[1][0] == 'u':
                self.effect('usub', (a, b))
            return sub(a, b)
        if op == 'Mul':
            return mul(a, b)
        if op == 'Div':
            self.effect('idiv' if it else 'div', b)
            return idiv(a, b) if it else div(a, b)
        if op == 'Rem':
            self.effect('idiv', b)
            return imod(a, b) if it else top('frem', a, b)
        if bt:
            if op == 'BitAnd':
                return and_(a, b)
            if op == 'BitOr':
                return or_(a, b)
            if op in ('BitXor', 'Ne'):
                return sel(a, not_(b), b)
            if op == 'Eq':
                return sel(a, b, not_(b))
        if op in ('Eq', 'Ne'):
            c = ieq(a, b) if it else feq(a, b)
            return c if op == 'Eq' else not_(c)
        lt = ilt if it else flt
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Le':
            return ile(a, b) if it else fle(a, b)
        if op == 'Ge':
            return ile(b, a) if it else fle(b, a)
        if op in ('Shl', 'Shr') and it and is_num(b):
            k = 2 ** int(val(b))
            return mul(a, num(k)) if op == 'Shl' else idiv(a, num(k))
        return top('binop ' + op, a, b)

    def val_eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, E) and isinstance(b, E):
            return ieq(a, b) if isint(a) and isint(b) else feq(a, b)
        if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
            if a.variant != b.variant:
                return FALSE
            return and_(*[self.val_eq(a.fields[k], b.fields[k]) for k in a.fields])
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return and_(*[self.val_eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Cond):
            return sel(a.c, self.val_eq(a.a, b), self.val_eq(a.b, b))
        if isinstance(b, Cond):
            return sel(b.c, self.val_eq(a, b.a), self.val_eq(a, b.b))
        if isinstance(a, E) and isinstance(b, Adt):
            c = self.isvar(a, b.path, b.variant)
            fs = [self.val_eq(mk('payload', a, b.variant, k), x) for k, x in b.fields.items()]
            return and_(c, *fs)
        if isinstance(b, E) and isinstance(a, Adt):
            return self.val_eq(b, a)
        return top('eq', reify(a, self), reify(b, self))

    def x_Logical(self, e):
        a = self.cond(e['l'])
        if e['op'] == 'And':
            return self.branch(a, lambda: self.cond(e['r']), lambda: FALSE)
        return self.branch(a, lambda: TRUE, lambda: self.cond(e['r']))

    def cond(self, e):
        """evaluate a condition (with let bindings)"""
        k = e['k']
        if k == 'Let':
            v = self.eval(e['e']) if e['e']['k'] not in ('Var', 'Field', 'Deref') else None
            place = None
            if v is None:
                place = self.place(e['e'])
                v = self.read(place)
                if isinstance(v, MutRef) and False:
                    v = self.read(v)
            c, binds = self.match_pat(e['p'], v, place)
            for vid, name, val_ in binds:
                self.bind(self.frames[-1], vid, name, val_)
            return c
        if k == 'Logical' and e['op'] == 'And':
            a = self.cond(e['l'])
            ka = self.implied(a)
            if ka is False:
                return FALSE
            if a is TRUE:
                return self.cond(e['r'])
            n = len(self.pc)
            eff = len(self.effects)
            # evaluate the right side under a; state changes are kept (conditions are rarely effectful)
            if self.has_let(e):
                self.pc.append(a)
                b = self.cond(e['r'])
                del self.pc[n:]
                return and_(a, b)
            return self.branch(a, lambda: self.cond(e['r']), lambda: FALSE)
        v = self.force(self.eval(e))
        if isinstance(v, E):
            return v
        if isinstance(v, Cond):
            r = reify(v, self)
            return r
        return top('cond')

    def has_let(self, e):
        if e['k'] == 'Let':
            return True
        if e['k'] == 'Logical':
            return self.has_let(e['l']) or self.has_let(e['r'])
        return False

    def x_Let(self, e):
        return self.cond(e)

    def x_If(self, e):
        c = self.cond(e['c'])
        return self.branch(c, lambda: self.eval(e['t']), lambda: self.eval(e['f']) if e['f'] else UNIT)

    def x_Match(self, e):
        se = e['e']
        # `for` desugaring
        if e['src'].startswith('ForLoop') and len(e['arms']) == 1:
            r = self.try_for(e)
            if r is not None:
                return r
        if se['k'] in ('Var', 'Field', 'Deref'):
            place = self.place(se)
            v = self.read(place)
        else:
            v = self.eval(se)
            place = v if isinstance(v, MutRef) else None
        arms = e['arms']

        def go(i):
            if i >= len(arms):
                raise Dead()
            a = arms[i]
            c, binds = self.match_pat(a['p'], v, place)
            if i == len(arms) - 1 and a['g'] is None:
                c = TRUE

            def body():
                for vid, name, val_ in binds:
                    self.bind(self.frames[-1], vid, name, val_)
                return self.eval(a['b'])
            if a['g'] is not None:
                if c is FALSE:
                    return go(i + 1)
                for vid, name, val_ in binds:
                    self.bind(self.frames[-1], vid, name, val_)
                n = len(self.pc)
                if c is not TRUE:
                    self.pc.append(c)
                g = self.cond(a['g'])
                del self.pc[n:]
                c = and_(c, g)
            if i == len(arms) - 1:
                return body()
            return self.branch(c, body, lambda: go(i + 1))
        return go(0)

    def x_Block(self, e):
        if e.get('unsafe') or e.get('unsafe_exp'):
            self.effect('unsafe' if e.get('unsafe') else 'unsafe_exp', self.site)
        sc = e.get('label')
        ctx = None
        scopes = set(e.get('scopes') or [])
        if sc:
            scopes.add(sc)
        if sc is not None:
            ctx = LoopCtx(scopes)
            self.frames[-1].labels.append(ctx)
            base = len(self.pc)
            pc0 = list(self.pc)
            res = None
            try:
                v = self.block_body(e)
                ctx.breaks.append((list(self.pc), self.st, v))
            except Dead:
                pass
            finally:
                self.frames[-1].labels.remove(ctx)
            if not ctx.breaks:
                self.pc = pc0
                raise Dead()
            pc, st, v = ctx.breaks[-1]
            for pc_i, st_i, v_i in reversed(ctx.breaks[:-1]):
                c = and_(*pc_i[base:])
                st = self.merge_state(c, st_i, st)
                v = merge(c, v_i, v)
            self.st = st
            self.pc = pc0
            return v
        return self.block_body(e)

    def block_body(self, e):
        for s in e['ss']:
            if s['k'] == 'E':
                self.eval(s['e'])
            else:
                if s.get('e') is None:
                    for vid, name, _ in self.dummy_binds(s['p']):
                        self.bind(self.frames[-1], vid, name, top('uninit'))
                    continue
                v = self.eval(s['e'])
                place = v if isinstance(v, MutRef) else None
                c, binds = self.match_pat(s['p'], v, place if s['p']['k'] != 'Bind' else None)
                if s.get('else') is not None and c is not TRUE:
                    def ok():
                        for vid, name, val_ in binds:
                            self.bind(self.frames[-1], vid, name, val_)
                        return UNIT
                    self.branch(c, ok, lambda: self.eval(s['else']))
                else:
                    for vid, name, val_ in binds:
                        self.bind(self.frames[-1], vid, name, val_)
        if e['e'] is not None:
            return self.eval(e['e'])
        return UNIT

    def x_Assign(self, e):
        v = self.eval(e['r'])
        if e['l']['k'] == 'Unknown':
            return UNIT
        p = self.place(e['l'])
        self.write(p, v)
        return UNIT

    def x_AssignOp(self, e):
        r = self.force(self.eval(e['r']))
        p = self.place(e['l'])
        old = self.force(self.read(p))
        op = e['op'].replace('Assign', '')
        self.write(p, self.binop(op, old, r, self.ty(e['l'])))
        return UNIT

    def find_label(self, label):
        for ctx in reversed(self.frames[-1].labels):
            if label in ctx.scopes:
                return ctx
        return self.frames[-1].labels[-1] if self.frames[-1].labels else None

    def x_Break(self, e):
        v = self.eval(e['e']) if e['e'] is not None else UNIT
        ctx = self.find_label(e['label'])
        if ctx is not None:
            ctx.breaks.append((list(self.pc), self.st, v))
        raise Dead()

    def x_Continue(self, e):
        ctx = self.find_label(e['label'])
        if ctx is not None:
            ctx.conts.append((list(self.pc), self.st, UNIT))
        raise Dead()

    def x_Return(self, e):
        v = self.eval(e['e']) if e['e'] is not None else UNIT
        self.frames[-1].returns.append((list(self.pc), self.st, v))
        raise Dead()

    def x_Use(self, e):
        return self.eval(e['e'])

    # ------------------------------------------------------------ calls
    def x_Call(self, e):
        fn = e['fn']
        if not fn:
            f = self.force(self.eval(e['fun']))
            args = [self.eval(a) for a in e['args']]
            return self.call_value(f, args, self.ty(e))
        args = [self.eval(a) for a in e['args']]
        self.site = tuple(e['sp']) if e.get('sp') else self.site
        return self.call(fn, args, self.frames[-1].tyenv, self.ty(e), [self.ty(a) for a in e['args']])

    def call_value(self, f, args, ret=None):
        f = self.force(f)
        if isinstance(f, Clo):
            return self.call_closure(f, args)
        if isinstance(f, PyFn):
            return f.f(*args)
        if isinstance(f, FnV):
            return self.call(f.fn, args, f.tyenv, ret, None)
        if isinstance(f, Cond):
            return self.branch(f.c, lambda: self.call_value(f.a, args, ret), lambda: self.call_value(f.b, args, ret))
        self.note_unknown('call of unknown value')
        self.havoc(args)
        return top('callvalue')

    def havoc(self, args):
        ds = [reify(self.force(a), self) for a in args if not isinstance(a, (Clo, FnV, PyFn))]
        for a in args:
            if isinstance(a, MutRef):
                old = self.read(a)
                self.write(a, self.havoc_val(old, ds))

    def havoc_val(self, old, ds):
        if isinstance(old, Arr):
            t = top('havoc', *ds)
            return Arr(old.shape, old.bvs, elem(t, *old.bvs))
        return top('havoc', *ds)

    def call(self, fn, args, tyenv, ret, argtys):
        import builtins_nd
        path = fn['path']
        targs = tuple(self.prog.tsubst(t, tyenv) for t in (fn.get('args') or ()))
        self.calls.add(path)
        h = self.barriers.get(path)
        if h is not None:
            r = h(self, path, args, targs, ret)
            if r is not NotImplemented:
                return r
        trait = fn.get('trait')
        # local trait method: resolve on the (substituted) self type
        if trait and trait in self.prog.traits:
            r = self.prog.resolve_impl(trait, targs[:1] + tuple(targs[1:1 + self.n_targs(trait)]))
            if r:
                imp, env = r
                fid = imp['itemd'].get(fn['name'])
                if fid:
                    f = self.prog.fns[fid]
                    h = self.barriers.get(f['path'])
                    if h is not None:
                        rr = h(self, f['path'], args, targs, ret)
                        if rr is not NotImplemented:
                            return rr
                    env2 = dict(env)
                    # method generics
                    own = [g for g in f['generics'] if g not in env2]
                    extra = targs[len(imp['targs']):]
                    env2.update(zip(own, extra))
                    return self.call_fn(f, args, env2)
            # a provided method
            for it in self.prog.traits[trait]['items']:
                if it[0] == fn['name'] and it[2]:
                    selfv = self.force(args[0]) if args else None
                    if r or not self.opaque_override(trait, fn['name']):
                        f = self.prog.fns[it[1]]
                        if f.get('_raw') is not None:
                            env2 = dict(zip(f['generics'], targs))
                            env2['Self'] = targs[0]
                            if r:
                                env2.update({k: v for k, v in r[1].items() if k not in env2})
                            return self.call_fn(f, args, env2)
            return self.opaque_call(fn, trait, targs, args, ret)
        # inherent / free local function
        rid = (fn.get('res') or {}).get('id')
        f = self.prog.fns.get(rid) if rid else None
        if f is not None and 'generics' not in f:
            f = None                # a closure called by name: the call operators below run it
        if f is not None and f.get('_raw') is not None and not f.get('derived'):
            ra = tuple(self.prog.tsubst(t, tyenv) for t in (fn['res'].get('args') or ()))
            return self.call_fn(f, args, self.generic_env(f, ra))
        if f is not None and f.get('derived'):
            r = builtins_nd.dispatch(self, fn, path, args, targs, ret, argtys)
            if r is not NotImplemented:
                return r
        f = self.prog.fns.get(fn.get('id'))
        if f is not None and f.get('_raw') is not None:
            return self.call_fn(f, args, self.generic_env(f, targs))
        # trait of another crate implemented locally (Default, From, ...)
        if trait:
            r = self.prog.resolve_impl(trait, targs[:1 + max(0, self.n_targs(trait))]) or \
                self.prog.resolve_impl(trait, targs)
            if r and not r[0].get('derived'):
                fid = r[0]['itemd'].get(fn['name'])
                if fid and self.prog.fns[fid].get('_raw') is not None:
                    return self.call_fn(self.prog.fns[fid], args, dict(r[1]))
        r = builtins_nd.dispatch(self, fn, path, args, targs, ret, argtys)
        if r is not NotImplemented:
            return r
        self.effect('extern', path)
        self.note_unknown('fn ' + path)
        self.havoc(args)
        if ret == ('tuple', ()) or ret is None:
            return UNIT
        if ret == ('prim', '!') or ret == ('other', '"!"'):
            raise Dead()
        ds = [reify(self.force(a), self) for a in args if not isinstance(a, (Clo, FnV, PyFn))]
        return self.opaque(top('fn ' + path, *ds), ret)

    def opaque_override(self, trait, name):
        return False

    def n_targs(self, trait):
        for i in self.prog.impls:
            if i['trait'] == trait:
                return len(i['targs']) - 1
        return 0

    def generic_env(self, f, targs):
        gs = f['generics']
        ts = [t for t in targs]
        return dict(zip(gs, ts))

    def opaque_call(self, fn, trait, targs, args, ret):
        """trait method on a type parameter"""
        name = trait.split('::')[-1] + '::' + fn['name']
        if self.opaque_hook is not None:
            r = self.opaque_hook(self, name, args, targs, ret)
            if r is not NotImplemented:
                return r
        es = [canon(reify(a, self)) for a in args]
        for k, a in enumerate(args):
            if isinstance(a, MutRef):
                old = self.read(a)
                new = mk('app', name + '.mut%d' % k, *es)
                if isinstance(old, Arr):
                    self.write(a, Arr(old.shape, old.bvs, elem(new, *old.bvs)))
                    SYM_INFO.setdefault(new, {})['shape'] = old.shape
                else:
                    self.write(a, new)
        if ret == ('tuple', ()) or ret is None:
            return UNIT
        return self.opaque(mk('app', name, *es), ret)

    # ------------------------------------------------------------ loops
    def try_for(self, e):
        """`match IntoIterator::into_iter(X) { mut iter => loop { match next(&mut iter) {None => break, Some(p) => body} } }`"""
        import builtins_nd
        arm = e['arms'][0]
        lp = arm['b']
        while lp['k'] == 'Block' and not lp['ss'] and lp['e']:
            lp = lp['e']
        if lp['k'] != 'Loop':
            return None
        body = lp['b']
        inner = None
        if body['k'] == 'Block' and len(body['ss']) == 1 and body['ss'][0]['k'] == 'E' and not body['e']:
            inner = body['ss'][0]['e']
        elif body['k'] == 'Block' and not body['ss'] and body['e']:
            inner = body['e']
        if inner is None or inner['k'] != 'Match':
            return None
        some = [a for a in inner['arms'] if a['p'].get('variant') == 'Some']
        if not some:
            return None
        some = some[0]
        it = self.eval(e['e'])
        it = self.force(it)
        if isinstance(it, Cond):
            it = builtins_nd.seq_merge(self, it)
        if isinstance(it, Adt) and it.path == '#iter':
            it = builtins_nd.iter_rest(self, it)
        if not isinstance(it, Seq):
            it = builtins_nd.to_seq(self, it)
        if not isinstance(it, Seq):
            self.note_unknown('for over unknown')
            raise Undecided('for over unknown iterator at %s' % (self.site,))
        site = tuple(e['sp']) if e.get('sp') else self.site

        def bodyf(x):
            fr = self.frames[-1]
            place = x if isinstance(x, MutRef) else None
            q = some['p']['fields'][0][1]
            self.bind_pat(q, x, fr, place)
            self.eval(some['b'])
            return UNIT
        if len(it.gens) == 1 and it.gens[0][1] is INFN:
            # `for x in a..`: ends only through the exits of the body
            niter = fresh('niter', 'N')
            q = bvar(niter, 'q')
            b = it.gens[0][0]

            def one():
                v, c = vsubst(it.value, {b: q}), subst(it.cond, {b: q})
                return bodyf(v) if c is TRUE else self.branch(c, lambda: bodyf(v), lambda: UNIT)
            return self.generic_loop(q, None, one, lp.get('scopes'), site, niter=niter)
        self.run_seq(it, bodyf, lp.get('scopes'), site)
        return UNIT

    def run_seq(self, seq, bodyf, scopes=(), site=None):
        """run body for every element of a comprehension; returns nothing"""
        gens = list(seq.gens)

        def level(k, m):
            if k == len(gens):
                v = vsubst(seq.value, m)
                c = subst(seq.cond, m)
                if c is not TRUE:
                    self.branch(c, lambda: bodyf(v), lambda: UNIT)
                else:
                    bodyf(v)
                return
            b, n = gens[k]
            n2 = subst(n, m)
            self.run_loop(n2, lambda q: level(k + 1, dict(m, **{b: q}) if False else _with(m, b, q)), scopes, site,
                          hint=b.args[1])
        level(0, {})

    def x_Loop(self, e):
        return self.run_while(e)

    def loop_pass(self, scopes, bodyf, L):
        """one abstract iteration from the current state. Returns (normal state or None, breaks, rets, val)"""
        fr = self.frames[-1]
        ctx = LoopCtx(scopes)
        fr.labels.append(ctx)
        nret = len(fr.returns)
        v = UNIT
        outs = []
        try:
            v = bodyf()
            outs.append((list(self.pc), self.st, v))
        except Dead:
            pass
        finally:
            fr.labels.remove(ctx)
        outs = ctx.conts + outs
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        if outs:
            pc, st, v = outs[-1]
            for pc_i, st_i, v_i in reversed(outs[:-1]):
                c = and_(*pc_i[L:])
                st = self.merge_state(c, st_i, st)
                v = merge(c, v_i, v)
            normal = (st, v, or_(*[and_(*pc_i[L:]) for pc_i, _, _ in outs]))
        else:
            normal = None
        return normal, ctx.breaks, rets

    def diff_leaves(self, ref, old, new, out):
        if old is new:
            return
        if isinstance(old, Adt) and isinstance(new, Adt) and old.path == new.path and old.variant == new.variant \
                and set(old.fields) == set(new.fields):
            for k in old.fields:
                self.diff_leaves(ref.sub(('f', k)), old.fields[k], new.fields[k], out)
            return
        if isinstance(old, Tup) and isinstance(new, Tup) and len(old.items) == len(new.items):
            for i, (a, b) in enumerate(zip(old.items, new.items)):
                self.diff_leaves(ref.sub(('f', str(i))), a, b, out)
            return
        if isinstance(old, E) and isinstance(new, E) and old is new:
            return
        if isinstance(old, Arr) and isinstance(new, Arr) and same_shape(old, new):
            if isinstance(old.body, E) and isinstance(new.body, E) and old.body is new.at(*old.bvs):
                return
        if isinstance(old, MutRef) and old == new:
            return
        out.append(ref)

    def make_phi(self, v, name, new=None):
        if isinstance(v, E):
            if v is TRUE or v is FALSE or v.op in ('not', 'and', 'or', 'flt', 'fle', 'feq', 'lt', 'eq', 'any') or \
                    (v.op == 'sym' and v.args[1] == 'B'):
                return fresh('phi:' + name, 'B')
            if isint(v) and (new is None or not isinstance(new, E) or isint(new) or new.op in ('top', 'sel', 'app')):
                # unsigned unless shown otherwise
                return fresh('phi:' + name, 'N' if nonneg_int(v) else 'Z')
            p = fresh('phi:' + name, 'R')
            return p
        if isinstance(v, Arr):
            sh = v.shape
            if new is not None and not (isinstance(new, Arr) and same_shape(v, new)):
                sh = tuple(fresh('phi:%s.shape' % name, 'N') for _ in v.shape)
            p = fresh('phi:' + name, 'A', shape=sh)
            if isinstance(v.body, E):
                return mkarr(sh, lambda *i: elem(p, *i))
            if isinstance(v.body, Arr):
                bsh = v.body.shape
                bvs = [bvar(s, 'i') for s in sh]
                inner = mkarr([subst(s, dict(zip(v.bvs, bvs))) for s in bsh], lambda *j: elem(p, *(tuple(bvs) + j)))
                return Arr(sh, bvs, inner)
            return mkarr(sh, lambda *i: top('phi elem'))
        if isinstance(v, Adt) and new is not None and isinstance(new, (Adt, Cond)):
            s = fresh('phi:' + name, 'O')
            TYOF[s] = v.ty
            return s
        s = fresh('phi:' + name, 'O')
        return s

    def run_loop(self, n, bodyf, scopes=(), site=None, hint='q'):
        """counted loop: body executed for q = 0..n-1"""
        if n is ZERO:
            return
        if n is ONE:
            # a single iteration: run it directly (break/continue become block exits)
            L = len(self.pc)
            st0 = self.st
            pc0 = list(self.pc)
            normal, breaks, rets = self.loop_pass(scopes, lambda: bodyf(ZERO), L)
            self.frames[-1].returns.extend(rets)
            outs = [(x[0], x[1]) for x in breaks]
            if normal:
                outs.append((pc0 + [normal[2]], normal[0]))
            if not outs:
                self.pc = pc0
                raise Dead()
            pc, st = outs[-1]
            for pc_i, st_i in reversed(outs[:-1]):
                st = self.merge_state(and_(*pc_i[L:]), st_i, st)
            self.st, self.pc = st, pc0
            return
        q = bvar(n, hint)
        self.generic_loop(q, n, lambda: bodyf(q), scopes, site)

    def run_while(self, e):
        niter = fresh('niter', 'N')
        q = bvar(niter, 'q')
        site = tuple(e['sp']) if e.get('sp') else self.site
        return self.generic_loop(q, None, lambda: self.eval(e['b']), e.get('scopes'), site, niter=niter)

    def generic_loop(self, q, n, bodyf, scopes, site, niter=None):
        st0, pc0 = self.st, list(self.pc)
        L = len(pc0)
        cells0 = set(st0)
        phis = {}     # ref -> (phi value, init value, name)
        nef, nlo, nun = len(self.effects), len(self.loops), len(self.unknown)
        for rounds in range(12):
            # state with phis
            self.st = dict(st0)
            for ref, (phi, init, name) in phis.items():
                self.st[ref.cell] = self.write_path(self.st[ref.cell], ref.path, phi)
            start = dict(self.st)
            self.pc = pc0 + ([mk('iter', q)] if False else [])
            del self.effects[nef:]
            del self.loops[nlo:]
            del self.unknown[nun:]
            self.loop_mark = fresh_mark()
            mark = self.loop_mark
            normal, breaks, rets = self.loop_pass(scopes, bodyf, L)
            changed = []
            finals = ([(None, normal[0])] if normal else []) + [(b[0], b[1]) for b in breaks] + [(r[0], r[1]) for r in rets]
            newphi = False
            for kind, fs in enumerate(finals):
                st = fs[1]
                isnormal = normal is not None and kind == 0
                if not isnormal:
                    continue
                for c in cells0:
                    if st.get(c) is not start.get(c):
                        lv = []
                        self.diff_leaves(MutRef(c), start[c], st[c], lv)
                        changed += lv
            for ref in changed:
                hit = [r for r in phis if r == ref or (r.cell == ref.cell and ref.path[:len(r.path)] == r.path)]
                if hit:
                    # the phi itself: check that its kind still fits (shape)
                    r = hit[0]
                    phi = phis[r][0]
                    newv = self.read_path(normal[0][r.cell], r.path)
                    if isinstance(phi, Arr) and not (isinstance(newv, Arr) and same_shape(phi, newv)) and \
                            not any(s.op == 'sym' and s.args[0].startswith('phi:') for s in phi.shape):
                        init = phis[r][1]
                        phis[r] = (self.make_phi(init, phis[r][2], newv), init, phis[r][2])
                        newphi = True
                    elif isinstance(phi, E) and phi.op == 'sym' and phi.args[1] == 'N' and isinstance(newv, E) and \
                            not isint(newv) and newv.op not in ('sel', 'top', 'app'):
                        init = phis[r][1]
                        phis[r] = (fresh('phi:' + phis[r][2], 'R'), init, phis[r][2])
                        newphi = True
                    continue
                # drop finer phis below this ref
                for r in list(phis):
                    if r.cell == ref.cell and r.path[:len(ref.path)] == ref.path:
                        del phis[r]
                init = self.read_path(st0[ref.cell], ref.path)
                newv = self.read_path(normal[0][ref.cell], ref.path)
                if isinstance(init, MutRef):
                    pass
                name = ref.cell.split('@')[0].split('.')[0] + ''.join('.' + str(p[1]) for p in ref.path if p[0] == 'f')
                phis[ref] = (self.make_phi(init, name, newv), init, name)
                newphi = True
            if not newphi:
                break
        else:
            self.note_unknown('loop did not stabilise')
        # drop phis whose value the body never changes (can appear through break paths)
        return self.close_loop(q, n, niter, phis, normal, breaks, rets, start, st0, pc0, L, cells0, site, nef, nlo, mark)

    def close_loop(self, q, n, niter, phis, normal, breaks, rets, start, st0, pc0, L, cells0, site, nef, nlo, mark):
        import loops
        return loops.close(self, q, n, niter, phis, normal, breaks, rets, start, st0, pc0, L, cells0, site, nef, nlo, mark)


def _with(m, b, q):
    m2 = dict(m)
    m2[b] = q
    return m2
