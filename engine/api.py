"""Entry points into the analysed crates: typed symbolic inputs, trait methods by trait and type name."""
from expr import *
from values import *
from prog import *
from interp import *


class Missing(Exception):
    """a construct the property is anchored on is not there (any more)"""


F = ('param', 'F')
USIZE = ('prim', 'usize')
F64 = ('prim', 'f64')


def arr_ty(nd, el=F):
    return ('adt', 'ndarray::ArrayBase', (('adt', 'ndarray::data_repr::OwnedRepr', (el,)),
                                          ('adt', 'ndarray::dimension::dim::Dim', (('array', USIZE, str(nd)),))))


def mkarray(name, shape_, esort='R', el=F, **info):
    s = sym(name, 'A', esort=esort, shape=tuple(shape_), **info)
    bvs = [bvar(n, 'i') for n in shape_]
    return Arr(tuple(shape_), bvs, elem(s, *bvs)), s


class Api:
    def __init__(self, prog):
        self.p = prog
        APP_SHAPE.clear()

    # ---------------------------------------------------------------- lookup
    def trait(self, name):
        c = [t for t in self.p.traits if t.split('::')[-1] == name]
        if len(c) != 1:
            raise Missing('trait %s' % name)
        return c[0]

    def adt(self, name):
        c = [t for t in self.p.adts if t.split('::')[-1] == name]
        if len(c) != 1:
            raise Missing('type %s' % name)
        return c[0]

    def ty(self, name, *args):
        return ('adt', self.adt(name), tuple(args) if args else (F,))

    def fn(self, name, crate='sparseglm', mod=None):
        c = [f for f in self.p.fns.values() if f.get('name', f['path'].split('::')[-1]) == name and f['path'].split('::')[-1] == name
             and f['crate'] == crate and f.get('_raw') is not None and '::tests::' not in f['path'] and '::impl' not in f['path'] and '<' not in f['path']]
        if mod:
            c = [f for f in c if mod in f['path']]
        if len(c) != 1:
            raise Missing('function %s%s' % (mod + '::' if mod else '', name))
        return c[0]

    def inherent(self, ty, name):
        for i in self.p.impls:
            if i['trait'] is None and i['self'][:2] == ty[:2] and name in i['itemd']:
                env = {}
                if self.p.unify(i['self'], ty, env, set(i['generics'])):
                    return self.p.fns[i['itemd'][name]], env
        raise Missing('%s::%s' % (tname(ty), name))

    def method(self, trait, targs, name):
        t = self.trait(trait) if '::' not in trait else trait
        r = self.p.resolve_impl(t, tuple(targs))
        if not r:
            raise Missing('impl %s for %s' % (trait, ', '.join(tname(x) for x in targs)))
        imp, env = r
        fid = imp['itemd'].get(name)
        if fid is None:
            for it in self.p.traits.get(t, {'items': ()})['items']:
                if it[0] == name and it[2]:
                    env2 = dict(zip(self.p.fns[it[1]]['generics'], targs))
                    env2['Self'] = targs[0]
                    return self.p.fns[it[1]], env2
            raise Missing('%s::%s for %s' % (trait, name, tname(targs[0])))
        return self.p.fns[fid], env

    # ---------------------------------------------------------------- calls
    def interp(self):
        return Interp(self.p)

    def call(self, I, fe, args, extra=None):
        f, env = fe if isinstance(fe, tuple) else (fe, {})
        if extra:
            env = {**env, **extra}
        a2 = []
        cells = []
        for p, t, a in zip(f['params'], f['inputs'], args):
            a2.append(a)
        if len(f['params']) != len(args):
            raise Missing('%s takes %d arguments, not %d' % (f['path'], len(f['params']), len(args)))
        return I.call_fn(f, a2, env)

    def cell(self, I, v, name='c'):
        return MutRef(I.new_cell(v, name))
