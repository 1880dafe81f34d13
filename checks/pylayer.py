"""Y01-Y05: the Python layer (syntax tree) and the binding crate (THIR), one data flow across both."""
import itertools
import math
import os
import random
import re
from api import *
from decide import *
from hyper import NotScalar, fev
import hyper as HY
import pyint as P
from pyint import Const, Num, Other, Sym, Data, Buf, Term, Seq, V, vkey

CLASSES = {  # Python class: native estimator, its own constructor arguments, multi-task?
    'Lasso': ('Lasso', ['alpha'], False), 'MultiTaskLasso': ('MultiTaskLasso', ['alpha'], True),
    'MCPRegressor': ('MCPEstimator', ['alpha', 'gamma'], False), 'BlockMCPRegressor': ('BlockMCPEstimator', ['alpha', 'gamma'], True),
    'ElasticNet': ('ElasticNet', ['alpha', 'l1_ratio'], False), 'MultiTaskElasticNet': ('MultiTaskElasticNet', ['alpha', 'l1_ratio'], True)}
ROLE = {'alpha': 'alpha', 'gamma': 'gamma', 'l1_ratio': 'l1_ratio', 'max_iter': 'max_iterations', 'max_epochs': 'max_epochs', 'tol': 'tolerance',
        'p0': 'ws_start_size', 'use_accel': 'use_acceleration', 'K': 'K', 'verbose': 'verbose'}
COMMON = ['max_iter', 'max_epochs', 'tol', 'p0', 'use_accel', 'K', 'verbose']
TYPE = {'alpha': 'float', 'gamma': 'float', 'l1_ratio': 'float', 'tol': 'float', 'max_iter': 'int', 'max_epochs': 'int', 'p0': 'int', 'K': 'int',
        'use_accel': 'bool', 'verbose': 'bool'}
FILE = 'python/sparseglm/estimators.py'


# ================================================================ loading
class Py:
    def __init__(self, api):
        self.api = api
        self.prog = P.PyProgram(os.path.join(api.repo, 'python', 'sparseglm'))
        if not os.path.exists(self.prog.path('estimators')):
            raise Missing(FILE)
        self.mod = self.prog.module('estimators')
        self.fns = set()

    def cls(self, name):
        c = self.mod.env.get(name)
        if not isinstance(c, P.Cls):
            raise Missing('class %s in %s' % (name, FILE))
        return c

    def paths(self, body, oracle=None, raises=(), ext=False):
        self.prog.native_raises, self.prog.ext_raises = list(raises), ext
        out = P.paths(self.prog, body, oracle)
        for o in out:
            self.fns |= o.I.fns
        return out


def note(rep, py):
    for f in sorted(py.fns):
        rep.fns.add('%s::%s' % (FILE, f))


# ================================================================ numeric witnesses for conditions on constructor arguments
class Unknown(Exception):
    pass


CAND = {'alpha': [0.0, 0.25, 1.0, 3.5, 1e-12, 1e7], 'gamma': [1.0, 1.5, 3.0, 25.0, math.inf], 'l1_ratio': [0.0, 0.25, 0.5, 1.0],
        'tol': [0.0, 1e-9, 1e-4, 0.5, 1e-16], 'max_iter': [0, 1, 2, 7, 50, 51, 1000, 100000], 'max_epochs': [0, 1, 3, 10, 500, 1000, 1001, 50000],
        'p0': [0, 1, 2, 10, 11, 400], 'K': [0, 1, 2, 5, 6, 30], 'use_accel': [True, False], 'verbose': [True, False]}


def pyev(t, env):
    if isinstance(t, Const):
        return t.v
    if isinstance(t, Num):
        if t.point():
            return t.lo
        raise Unknown()
    if isinstance(t, Term):
        a = t.args
        if t.op == 'sym':
            if a[0] in env:
                return env[a[0]]
            raise Unknown()
        if t.op == 'ext':
            if a[0] in ('numpy.inf', 'math.inf'):
                return math.inf
            raise Unknown()
        try:
            if t.op == 'eq':
                return pyev(a[0], env) == pyev(a[1], env)
            if t.op == 'lt':
                return pyev(a[0], env) < pyev(a[1], env)
            if t.op == 'le':
                return pyev(a[0], env) <= pyev(a[1], env)
            if t.op == 'not':
                return not pyev(a[0], env)
            if t.op == 'truth' or t.op == 'bool':
                return bool(pyev(a[0], env))
            if t.op == 'neg':
                return -pyev(a[0], env)
            if t.op in ('abs', 'float', 'int'):
                return {'abs': abs, 'float': float, 'int': int}[t.op](pyev(a[0], env))
            if t.op in ('min', 'max'):
                return (min if t.op == 'min' else max)(pyev(a[0], env), pyev(a[1], env))
            if t.op == 'bin':
                x, y = pyev(a[1], env), pyev(a[2], env)
                f = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y, 'FloorDiv': lambda: x // y,
                     'Pow': lambda: x ** y, 'Mod': lambda: x % y}.get(a[0])
                if f:
                    return f()
            if t.op == 'isinstance' and isinstance(a[1], Term) and a[1].op == 'ext' and a[1].args[0] in P.KNOWN_TYPES:
                v = pyev(a[0], env)
                if type(v).__name__ in P.TYBASES:
                    return a[1].args[0] in P.TYBASES[type(v).__name__]
                raise Unknown()
            if t.op == 'callb' and a[0].v.split('.')[-1] in ('isnan', 'isfinite', 'isinf'):
                return getattr(math, a[0].v.split('.')[-1])(pyev(a[1], env))
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            raise Unknown()
    raise Unknown()


def base(n):
    return n[4:] if isinstance(n, str) and n.startswith('old ') else n


def syms_of(v, out):
    if isinstance(v, Term):
        if v.op == 'sym' and base(v.args[0]) in CAND:
            out.add(v.args[0])
        for a in v.args:
            syms_of(a, out)
    elif isinstance(v, P.Seq):
        for x in v.xs:
            syms_of(x, out)
    return out


def witnesses(pc, extra=(), n=3000):
    """assignments of constructor arguments under which the decidable conditions hold; second: were all decidable?"""
    names = set()
    for t, b in pc:
        syms_of(t, names)
    for t in extra:
        syms_of(t, names)
    names = sorted(names)
    total = 1
    for x in names:
        total *= len(CAND[base(x)])
    rng = random.Random(5)
    it = itertools.product(*[CAND[base(x)] for x in names]) if total <= n else ([rng.choice(CAND[base(x)]) for x in names] for _ in range(n))
    full = True
    out = []
    for vals in it:
        env = dict(zip(names, vals))
        ok = True
        for t, b in pc:
            try:
                if bool(pyev(t, env)) != b:
                    ok = False
                    break
            except Unknown:
                full = False
        if ok:
            out.append(env)
            if len(out) > 400:
                break
    return out, full


def showenv(env):
    return ', '.join('%s=%r' % kv for kv in sorted(env.items())) or 'any arguments'


# ================================================================ scenarios
def mkdata(who, rank, dtype='float64', sparse=False, fmt='F'):
    return Data(who, dtype, sparse, rank, fmt if rank > 1 else 'FC', Buf('caller:' + who))


class Scen:
    def __init__(self, name, xd='float64', sparse=False, fmt='F', yd='float64', match=True):
        self.name, self.xd, self.sparse, self.fmt, self.yd, self.match = name, xd, sparse, fmt, yd, match

    def data(self, multi):
        return mkdata('X', 2, self.xd, self.sparse, 'csc' if self.sparse and self.fmt == 'F' else self.fmt), mkdata('y', 2 if multi else 1, self.yd)

    def oracle(self, t):
        if t.op == 'eq' and len(t.args) == 2:
            a, b = t.args
            if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == 'dim' and {a.args[0], b.args[0]} == {'X', 'y'} \
                    and a.args[1].v == 0 and b.args[1].v == 0:
                return self.match
        return None


DENSE, SPARSE = Scen('dense'), Scen('sparse', sparse=True)
INPUTS = [DENSE, Scen('dense, C order', fmt='C'), Scen('dense float32', xd='float32'), Scen('dense integers', xd='int64'), SPARSE,
          Scen('sparse float32', sparse=True, xd='float32'), Scen('CSR', sparse=True, fmt='csr'), Scen('float32 target', yd='float32'),
          Scen('integer target', yd='int64'), Scen('all float32', xd='float32', yd='float32'), Scen('sparse, integer target', sparse=True, yd='int64')]


def kwargs(cls):
    est, own, multi = CLASSES[cls]
    return {n: Sym(n, TYPE[n]) for n in own + COMMON}


def construct(I, py, cls):
    return I.call(py.cls(cls), [], kwargs(cls), None)


def fitted(I, py, cls, sc):
    o = construct(I, py, cls)
    X, y = sc.data(CLASSES[cls][2])
    r = I.call(I.getattr(o, 'fit'), [X, y], {}, None)
    return o, X, y, r


# ================================================================ the binding table, from the macro-generated code
class Wrapper:
    pass


def nodes(api, x, seen):
    """every node below x, through nested closures and named constants"""
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            yield n
            if n.get('k') == 'Closure' and n.get('id') in api.p.fns and n['id'] not in seen:
                seen.add(n['id'])
                st.append(api.p.body(api.p.fns[n['id']]))
            if n.get('k') == 'Const' and n.get('id') in api.p.fns and n['id'] not in seen:
                seen.add(n['id'])
                st.append(api.p.body(api.p.fns[n['id']]))
            st += list(n.values())
        elif isinstance(n, (list, tuple)):
            st += list(n)


def lit_strs(n):
    out = []
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('k') == 'Lit' and x.get('lit') == 'str':
                out.append(x['v'])
            st += list(x.values())[::-1]
        elif isinstance(x, (list, tuple)):
            st += list(x)[::-1]
    return out


def description(api, fid, adt):
    """(parameter names, number required, the Rust function called) of one generated __wrap function"""
    names = req = target = None
    for n in nodes(api, api.p.body(api.p.fns[fid]), set()):
        if n.get('k') == 'Adt' and n.get('path', '').endswith('FunctionDescription'):
            f = dict(n['fields'])
            names = lit_strs(f['positional_parameter_names'])
            kwo = f['keyword_only_parameters']
            if lit_strs(kwo):
                names = None
                break
            req = int(f['required_positional_parameters']['v'])
        if n.get('k') == 'Call' and n.get('fn', {}).get('id') in api.p.fns:
            g = api.p.fns[n['fn']['id']]
            for i in api.p.impls:
                if i['trait'] is None and i['self'][0] == 'adt' and i['self'][1] == adt and g['id'] in i['itemd'].values():
                    target = g
    return names, req, target


def bindings(api):
    """Python class name in _lib -> Wrapper(adt, methods{python name: (parameter names, required, fn)})"""
    out = {}
    for f in api.p.fns.values():
        if f['crate'] != 'sparseglmpy' or not f['path'].endswith('PyTypeInfo>::NAME'):
            continue
        adt = 'sparseglmpy::' + f['path'].split('<')[1].split(' as ')[0]
        w = Wrapper()
        w.adt = adt
        w.name = (lit_strs(api.p.body(f)) or [None])[0]
        w.methods = {}
        w.new = None
        short = adt.split('::', 1)[1]
        for g in api.p.fns.values():
            if g['crate'] != 'sparseglmpy' or ('<%s>' % short) not in g['path']:
                continue
            if 'PyClassNewImpl<' in g['path'] and g['path'].endswith('new_impl::__wrap'):
                w.new = description(api, g['id'], adt)
            if g['path'].endswith('py_methods::METHODS'):
                for n in nodes(api, api.p.body(g), set()):
                    if n.get('k') == 'Call' and n.get('fn', {}).get('path', '').startswith('pyo3::class::methods::PyMethodDef::'):
                        pn = lit_strs(n['args'][0])
                        fid = [m['fn']['id'] for m in nodes(api, n['args'], set()) if m.get('k') == 'Zst' and m.get('fn', {}).get('name') == '__wrap']
                        if pn and fid:
                            w.methods[pn[0].rstrip('\0')] = description(api, fid[0], adt)
        out[w.name] = w
    reg = set()
    for f in api.p.fns.values():
        if f['crate'] == 'sparseglmpy' and f.get('_raw') is not None:
            for n in nodes(api, api.p.body(f), set()):
                if n.get('k') == 'Call' and n.get('fn', {}).get('name') == 'add_class':
                    reg |= {a[1] for a in n['fn'].get('args', ()) if a[0] == 'adt'}
    for w in out.values():
        w.registered = w.adt in reg
    return out


def array_type(t):
    """(element type, rank) of a numpy array parameter"""
    t = HY.strip(t)
    if t[0] == 'adt' and t[1].startswith('numpy::') and len(t[2]) >= 2:
        d = t[2][-1]
        el = t[2][-2]
        if d[0] == 'adt' and d[2] and d[2][0][0] == 'array':
            return el, int(d[2][0][2])
    return None


def result_rank(f):
    t = f['output']
    st = [t]
    while st:
        x = st.pop()
        r = array_type(x) if isinstance(x, tuple) and x and x[0] in ('adt', 'ref') else None
        if r:
            return r[1]
        if isinstance(x, tuple):
            st += [y for y in x if isinstance(y, tuple)]
    return None


def set_ranks(py, tab):
    for w in tab.values():
        for m, (names, req, f) in w.methods.items():
            if f is not None:
                r = result_rank(f)
                if r:
                    py.prog.ranks[(w.name, m)] = r


def bind(names, req, args, kw):
    """name -> value, or the reason the call is refused"""
    if names is None:
        return None, None
    out = dict(zip(names, args))
    if len(args) > len(names):
        return None, 'takes %d arguments, %d are given' % (len(names), len(args))
    for k, v in kw.items():
        if k not in names:
            return None, 'has no parameter %s (its parameters are %s)' % (k, ', '.join(names))
        if k in out:
            return None, 'gets two values for %s' % k
        out[k] = v
    for n in names[:req]:
        if n not in out:
            return None, 'lacks a value for %s' % n
    return out, None


# ================================================================ one fit, from the Python call to the arguments of the solver
class Flow:
    """the Rust side of one native call"""

    def __init__(self, api, w, newvals, meth, data, params):
        """newvals: Rust parameter of `new` -> expression; data: Rust parameter of the method -> Data"""
        self.r = r = HY.Run(api)
        I = r.I
        self.arrays = {}
        names, req, f = w.new
        args = [newvals[n] for n in names]
        o = api.call(I, (f, {}), args)
        self.new_out = o
        self.obj = None
        for pc, v in HY.paths_of(o):
            if isinstance(v, Adt) and v.variant == 'Ok':
                self.obj, self.new_pc = v.fields['0'], pc
            elif isinstance(v, Adt) and v.path.endswith(w.adt.split('::')[-1]):
                self.obj, self.new_pc = v, pc
        if self.obj is None:
            self.out = None
            return
        names, req, f = w.methods[meth]
        self.f = f
        args = [api.cell(I, self.obj)]
        pars = list(f['inputs'][1:])
        k = 0
        for t in pars:
            at = array_type(t)
            if at is None:
                args.append(sym('py', 'O'))
                continue
            nm = names[k]
            k += 1
            args.append(self.array(api, I, data[nm], at))
        self.out = api.call(I, (f, {}), args)

    def array(self, api, I, d, at):
        key = (d.who, d.part, d.tr, d.changes())
        if key not in self.arrays:
            nm = 'py:' + d.who + ('.' + d.part if d.part else '') + ('.T' if d.tr else '') + ''.join('~' + str(c)[:60] for c in d.changes())
            if at[1] == 2:
                a = mkarray(nm, (sym('n_' + d.who, 'N'), sym('m_' + d.who, 'N')), el=at[0])[0]
            else:
                a = mkarray(nm, (sym('len_' + nm, 'N'),), esort='R' if at[0] in (F64, ('prim', 'f32')) else 'Z', el=at[0])[0]
            self.arrays[key] = a
        return self.arrays[key]


def check_call(rep, key, where, w, tab):
    if w is None:
        rep.bad(key, where, 'no native class of this name exists; there are %s' % ', '.join(sorted(map(str, tab))))
        return False
    if not w.registered:
        rep.bad(key, where, 'the native class %s is not registered in the module' % w.name)
        return False
    if not w.new or w.new[2] is None:
        rep.und(key, where, 'constructor of %s not understood' % w.name)
        return False
    return True


def succeeded(rep, key, outs, where, what):
    """the paths that return; reports when none does or a path is unknown"""
    good = []
    unk = [o for o in outs if o.kind == 'unknown']
    for o in outs:
        if o.kind == 'return':
            ws, full = witnesses(o.I.pc)
            if ws:
                good.append((o, ws, full))
    if unk:
        rep.und(key, where, '%s: %s' % (what, unk[0].val))
    elif not good:
        o = next((o for o in outs if o.kind == 'raise' and witnesses(o.I.pc)[0]), None)
        rs_ = [o for o in outs if o.kind == 'raise']
        names = sorted({repr(o.val) for o in rs_})
        rep.bad(key, where, '%s: never succeeds (raises %s)' % (what, ', '.join(names)))
    return good


def native_fits(o, fitnames=None):
    return [e for e in o.I.events if e[0] == 'native']


# ================================================================ Y01
def spec_valid(name, v):
    """is this abstract value a valid hyperparameter?"""
    if not (isinstance(v, Num) and 'float' in P.TYBASES.get(v.ty, ())):
        return False
    lo, hi = v.lo, v.hi
    if lo != lo:
        return False
    if name == 'alpha':
        return lo >= 0
    if name == 'gamma':
        return lo >= 1
    return lo >= 0 and hi <= 1


def number_cells(consts):
    cs = sorted(consts)
    out = [('pt', -math.inf), ('iv', -math.inf, cs[0])]
    for a, b in zip(cs, cs[1:]):
        out += [('pt', a), ('iv', a, b)]
    out += [('pt', cs[-1]), ('iv', cs[-1], math.inf), ('pt', math.inf), ('pt', math.nan)]
    return out


def consts_in(py, cls):
    """the finite numbers the constructors (and what they may call) compare with"""
    import ast
    cs = {0.0, 1.0}
    for n in ast.walk(py.mod.tree):
        if isinstance(n, (ast.Compare, ast.BinOp, ast.Call, ast.Assign, ast.Tuple, ast.List, ast.Dict)):
            for c in ast.iter_child_nodes(n):
                k = -1 if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.USub) else 1
                c = c.operand if isinstance(c, ast.UnaryOp) else c
                if isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and not isinstance(c.value, bool) and math.isfinite(c.value) \
                        and abs(c.value) < 1e15:
                    cs |= {float(k * c.value)}
    return cs


def points(consts, rich=True):
    vals = []
    for c in number_cells(consts):
        lo, hi = c[1], c[2] if c[0] == 'iv' else c[1]
        for ty in ('float', 'numpy.float64') if rich else ('float',):
            vals.append(Num(ty, lo, hi))
        if rich and lo == lo and not (c[0] == 'pt' and (math.isinf(lo) or lo != int(lo))):
            vals.append(Num('int', lo, hi))
    if rich:
        vals += [Num('bool', 0), Num('bool', 1), Num('numpy.float32', 0.0, 1.0), Num('numpy.float32', 1.0), Num('numpy.int64', 1), Other('str'),
                 Const(None), Other('list'), Other('complex')]
    return vals


OTHERS = {'int': [Num('int', -1), Num('int', 0), Num('int', 1, math.inf), Num('float', 0.5)], 'float': [Num('float', -1.0), Num('float', 0.0),
          Num('float', 0.0, 1.0), Num('float', math.nan), Num('int', 1)], 'bool': [Const(True), Const(False)]}


def misreport(exc, kw, bad):
    """the message names another parameter, or shows its value, and not the rejected one"""
    objs, text, todo = [], [], list(getattr(exc, 'args', ()) or ())
    while todo:
        x = todo.pop()
        if isinstance(x, Const) and isinstance(x.v, str):
            text.append(x.v)
        elif isinstance(x, Term):
            todo += list(x.args)
        elif isinstance(x, Seq):
            todo += list(x.xs)
        elif isinstance(x, V):
            objs.append(x)
    words = set(re.findall(r'[A-Za-z_0-9]+', ' '.join(text)))
    named = [n for n in kw if n in words]
    shown = [n for n, v in kw.items() if any(o is v for o in objs)]
    if named and not set(named) & set(bad):
        return 'the message is about %s: %s' % (', '.join(named), ' '.join(text))
    if shown and not set(shown) & set(bad):
        return 'the message shows the value of %s' % ', '.join(shown)
    return None


def Y01(api, rep):
    py = Py(api)
    for cls, (est, own, multi) in CLASSES.items():
        c = py.cls(cls)
        where = '%s::%s.__init__' % (FILE, cls)
        consts = consts_in(py, cls)
        full = points(consts)
        lean = points({0.0, 1.0}, rich=False) + [Num('int', 1), Other('str')]
        base = {'alpha': Num('float', 0.0, 1.0), 'gamma': Num('float', 1.0, math.inf), 'l1_ratio': Num('float', 0.0, 1.0)}
        combos = []
        if len(own) == 1:
            combos = [{own[0]: v} for v in full]
        else:
            a, b = own
            combos = [{a: v, b: q} for v in full for q in lean] + [{a: v, b: q} for v in lean for q in full]
        for n in COMMON:
            for v in OTHERS[TYPE[n]]:
                for bad in [None] + own:
                    k = {o: base[o] for o in own}
                    if bad:
                        k[bad] = Num('float', -1.0)
                    k[n] = v
                    combos.append(k)
        first = {'accepts only valid': None, 'rejects only invalid': None, 'ValueError': None, 'message': None}
        und = None
        count = 0
        for kw in combos:
            count += 1
            bad = [o for o in own if not spec_valid(o, kw[o])]
            txt = ', '.join('%s = %r' % (k, v) for k, v in kw.items())
            for o in py.paths(lambda I: I.call(c, [], dict(kw), None)):
                if o.kind == 'unknown':
                    und = und or '%s: %s' % (txt, o.val)
                    continue
                sure = not o.I.pc
                if o.kind == 'return' and bad:
                    k, m = 'accepts only valid', 'accepted: %s' % txt
                elif o.kind == 'raise' and not bad:
                    k, m = 'rejects only invalid', 'raises %r: %s' % (o.val, txt)
                elif o.kind == 'raise' and bad and 'ValueError' not in o.val.names():
                    k, m = 'ValueError', 'raises %r instead of ValueError: %s' % (o.val, txt)
                elif o.kind == 'raise' and misreport(o.val, kw, bad):
                    k, m = 'message', '%s (%s)' % (misreport(o.val, kw, bad), txt)
                else:
                    continue
                if not sure:
                    und = und or '%s under %r' % (m, o.I.pc)
                elif first[k] is None:
                    first[k] = m
        for k, m in first.items():
            rep.add('%s:%s' % (cls, k), where, 'violated' if m else 'undecided' if und else 'held', m or und or '', count)
        rep.count('constructor cells', count)
    note(rep, py)


# ================================================================ Y02 and Y03: composition
def compose(api, py, tab, rep, cls, sc, o, ws, key, want):
    """follow every native fit of one returning path into the solver; `want`: 'roles' or 'data'"""
    est, own, multi = CLASSES[cls]
    pyargs = own + COMMON
    where = '%s::%s.fit' % (FILE, cls)
    evs = native_fits(o)
    if not evs:
        rep.bad(key + ':native call', where, 'fit returns without calling the native solver (%s)' % showenv(ws[0]))
        return
    for n, (_, nat, meth, args, kw, line, changes) in enumerate(evs):
        k = key if len(evs) == 1 else '%s(native call %d)' % (key, n)
        w = tab.get(nat.cls)
        if not check_call(rep, k + ':native class', where, w, tab):
            continue
        if meth not in w.methods:
            rep.bad(k + ':native method', where, '%s has no method %s' % (nat.cls, meth))
            continue
        mn, mreq, mf = w.methods[meth]
        if mf is None or mn is None:
            rep.und(k + ':native method', where, '%s.%s not understood' % (nat.cls, meth))
            continue
        b, why = bind(w.new[0], w.new[1], nat.args, nat.kw)
        if b is None:
            (rep.bad if why else rep.und)(k + ':constructor call', where, 'line %d: %s %s' % (nat.site, nat.cls, why))
            continue
        d, why = bind(mn, mreq, args, kw)
        if d is None:
            (rep.bad if why else rep.und)(k + ':native call', where, 'line %d: %s.%s %s' % (line, nat.cls, meth, why))
            continue
        ok = True
        ptypes = [array_type(t) for t in mf['inputs'][1:]]
        ptypes = [t for t in ptypes if t]
        for (pn, v), at in zip(((q, d[q]) for q in mn), ptypes):
            if not isinstance(v, Data):
                rep.und('%s:%s' % (k, pn), where, 'line %d: the value is %r' % (line, v))
                ok = False
                continue
            dt = {'f64': 'float64', 'f32': 'float32', 'i32': 'i32', 'i64': 'i64'}.get(at[0][1])
            if v.rank != at[1] or v.sparse:
                rep.bad('%s:%s' % (k, pn), where, 'line %d: %s.%s takes a %d-dimensional array as %s, it gets %r' % (line, nat.cls, meth, at[1], pn, v))
                ok = False
            elif v.dtype and dt and v.dtype != dt:
                rep.bad('%s:%s type' % (k, pn), where, 'line %d: %s input: %s.%s takes %s as %s, it gets %s (TypeError)' % (line, sc.name, nat.cls, meth, dt, pn, v.dtype))
                ok = False
            elif v.part and v.fmt != 'csc':
                rep.bad('%s:%s' % (k, pn), where, 'line %d: %s input: the %s of a %s matrix are passed as those of a CSC matrix' % (line, sc.name, v.part, v.fmt))
                ok = False
        if not ok:
            continue
        # the Rust side, with the Python values as symbols
        vals, odd = {}, {}
        tys = dict(zip(w.new[0], w.new[2]['inputs']))
        for pn in w.new[0]:
            v = b.get(pn)
            if isinstance(v, Term) and v.op == 'sym' and v.args[0] in ROLE:
                vals[pn] = HY.rs(ROLE[v.args[0]])
            else:
                t = tys[pn]
                s = sym('py:' + pn, 'B' if t == ('prim', 'bool') else 'R' if t == F64 else 'N')
                vals[pn], odd[s] = s, v
        fl = Flow(api, w, vals, meth, d, None)
        rep.analysed(fl.r.I)
        if fl.out is None:
            rep.und(k + ':constructor', where, show_val(fl.new_out)[:300])
            continue
        if want == 'roles':
            roles(api, py, rep, k, cls, sc, o, ws, w, fl, odd, line)
        else:
            datasets(api, rep, k, cls, sc, o, w, meth, fl, d, line)
    return evs


def roles(api, py, rep, key, cls, sc, o, ws, w, fl, odd, line):
    est, own, multi = CLASSES[cls]
    pen, pars, _ = HY.EST[est]
    where = fl.f['path']
    calls = fl.r.calls
    if not calls:
        rep.und(key + ':solver', where, 'no call of a solver is seen (%s)' % (fl.r.I.unknown[:2],))
        return
    solver = api.fn('block_coordinate_descent' if multi else 'coordinate_descent')['path']
    for n, call in enumerate(calls):
        ck = key if len(calls) == 1 else '%s(call %d)' % (key, n)
        path, pc, v, s = call
        rep.check(ck + ':solver', where, path == solver, 'calls %s instead of %s' % (path, solver))
        if path != solver:
            continue
        syms = [HY.rs(ROLE[a]) for a in own + COMMON] + list(odd)
        sp = HY.hspace(syms).with_(cons=pc)
        d = HY.roles_of(api, fl.r, est, call)
        for a in COMMON:
            value_of(rep, '%s:%s' % (ck, a), where, canon(reify(d[ROLE[a]])), a, odd, ws, sp)
        pe = d['penalty']
        used = {x for x in walk(reify(pe)) if x in odd} if isinstance(pe, Adt) else set()
        if not used:
            HY.same_penalty(api, rep, ck, where, fl.r, pe, pen, pars, sp)
        else:
            # an argument changed in Python: the penalty made of the documented arguments tells which
            f, env = api.inherent(api.ty(pen), 'new')
            wantp = api.call(fl.r.I, (f, env), [HY.rs(x) for x in pars])
            if not (isinstance(pe, Adt) and pe.path == wantp.path):
                rep.und(ck + ':penalty', where, show_val(pe)[:200])
                continue
            for fn_ in wantp.fields:
                x = canon(reify(wantp.fields[fn_]))
                if x.op == 'sym' and x in [HY.rs(q) for q in pars]:
                    a = next(q for q in own if HY.rs(ROLE[q]) is x)
                    value_of(rep, '%s:%s' % (ck, a), where, canon(reify(pe.fields[fn_])), a, odd, ws, sp)
                else:
                    rep.und('%s:penalty.%s' % (ck, fn_), where, show(x)[:200])


def value_of(rep, key, where, got, a, odd, ws, sp):
    """is the value that reaches the solver the constructor argument `a`?"""
    want = HY.rs(ROLE[a])
    if not any(x in odd for x in walk(got)):
        rep.res(key, where, HY.scalar_eq(got, want, sp))
        return
    if got not in odd:
        rep.und(key, where, show(got)[:200])
        return
    t = odd[got]
    if t is None:
        rep.und(key, where, 'a default of the native constructor')
        return
    envs, full = witnesses(getattr(ws, 'pc', []), [t, Sym(a, TYPE[a])]) if hasattr(ws, 'pc') else (ws, True)
    eqs = 0
    for env in envs:
        for x in CAND[a]:
            e = dict(env)
            if a in e and e[a] != x:
                continue
            e[a] = x
            try:
                v = pyev(t, e)
            except Unknown:
                rep.und(key, where, 'the value is %r' % (t,))
                return
            if v != e[a] and not (v != v and e[a] != e[a]):
                rep.bad(key, where, '%s = %r reaches the solver as %r (%s, written %r)' % (a, e[a], v, showenv(env), t))
                return
            eqs += 1
    if isinstance(t, Const) or eqs == 0:
        rep.und(key, where, 'the value is %r' % (t,))
    else:
        rep.und(key, where, 'the value is %r, equal to %s on %d samples' % (t, a, eqs))


class Wits(list):
    pc = ()


def Y02(api, rep):
    py = Py(api)
    tab = bindings(api)
    set_ranks(py, tab)
    for cls in CLASSES:
        for sc in (DENSE, SPARSE):
            key = '%s/%s' % (cls, sc.name)
            where = '%s::%s.fit' % (FILE, cls)
            outs = py.paths(lambda I: fitted(I, py, cls, sc), sc.oracle)
            good = succeeded(rep, key, outs, where, '%s input' % sc.name)
            for i, (o, ws, full) in enumerate(good):
                wl = Wits(ws)
                wl.pc = o.I.pc
                compose(api, py, tab, rep, cls, sc, o, wl, key if len(good) == 1 else '%s(path %d)' % (key, i), 'roles')
            refit(api, py, tab, rep, cls, sc, key)
    note(rep, py)


def olds(v):
    if isinstance(v, Term):
        if v.op == 'sym':
            return {v.args[0]} if str(v.args[0]).startswith('old ') else set()
        return set().union(*[olds(a) for a in v.args]) if v.args else set()
    if isinstance(v, P.Seq):
        return set().union(*[olds(a) for a in v.xs]) if v.xs else set()
    return set()


def refit(api, py, tab, rep, cls, sc, key):
    """hyperparameters reassigned after a fit (set_params) are the ones of the next fit"""
    where = '%s::%s.fit' % (FILE, cls)
    own = CLASSES[cls][1]

    def body(I):
        o = construct(I, py, cls)
        for a in own + COMMON:
            if a not in o.attrs:
                I.skip = a
                return None
            I.setattr(o, a, Sym('old ' + a, TYPE[a]))
        multi = CLASSES[cls][2]
        X, y = sc.data(multi)
        I.call(I.getattr(o, 'fit'), [X, y], {}, None)
        for a in own + COMMON:
            I.setattr(o, a, Sym(a, TYPE[a]))
        I.cut = len(I.events)
        X, y = sc.data(multi)
        return o, X, y, I.call(I.getattr(o, 'fit'), [X, y], {}, None)
    outs = py.paths(body, sc.oracle)
    if any(getattr(o.I, 'skip', None) for o in outs):
        rep.und(key + '/refit', where, 'the arguments are not attributes of their own name')
        return
    good = succeeded(rep, key + '/refit', outs, where, '%s input, second fit' % sc.name)
    for i, (o, ws, full) in enumerate(good):
        k = key + '/refit' if len(good) == 1 else '%s/refit(path %d)' % (key, i)
        evs = [e for e in o.I.events[o.I.cut:] if e[0] == 'native']
        if not evs:
            rep.bad(k + ':native call', where, 'the second fit returns without calling the native solver (%s)' % showenv(ws[0]))
            continue
        for e in evs:
            nat = e[1]
            bad = und = None
            for pn, v in list(nat.kw.items()) + [(None, v) for v in nat.args]:
                old = sorted(olds(v))
                if isinstance(v, Term) and v.op == 'sym' and old:
                    bad = bad or 'line %d: the native estimator is built from the %s of an earlier fit' % (nat.site, old[0][4:])
                elif old:
                    und = und or 'line %d: %r' % (nat.site, v)
            rep.add(k, where, 'violated' if bad else 'undecided' if und else 'held', bad or und or '', 1)


# ================================================================ Y03
def datasets(api, rep, key, cls, sc, o, w, meth, fl, d, line):
    est, own, multi = CLASSES[cls]
    where = fl.f['path']
    I = fl.r.I
    if not fl.r.calls:
        rep.und(key + ':solver', where, 'no call of a solver is seen (%s)' % (I.unknown[:2],))
        return
    def ref(who, part, rank, el):
        k = (who, part, False, ())
        return fl.array(api, I, Data(who, None, False, rank, 'F', Buf('ref'), (), part), (el, rank))
    I32 = ('prim', 'i32')
    if sc.sparse:
        f = api.inherent(api.ty('CSCArray'), 'new')
        X = api.call(I, f, [ref('X', 'data', 1, F64), ref('X', 'indices', 1, I32), ref('X', 'indptr', 1, I32)])
    else:
        X = ref('X', None, 2, F64)
    y = ref('y', None, 2 if multi else 1, F64)
    spc = HY.hspace([HY.rs(r) for r in HY.ROLE])
    for n, (path, pc, v, s) in enumerate(fl.r.calls):
        ck = key if len(fl.r.calls) == 1 else '%s(call %d)' % (key, n)
        ds = v[0]
        if not isinstance(ds, Adt) or set(ds.fields) != {'design_matrix', 'targets'}:
            rep.und(ck + ':dataset', where, show_val(ds)[:200])
            continue
        for what, got, want in (('design matrix', ds.fields['design_matrix'], X), ('target', ds.fields['targets'], y)):
            same_arrays(rep, '%s:%s' % (ck, what), where, I, got, want)
    # what comes back
    sols = {c[3] for c in fl.r.calls}
    for n, (pc, v) in enumerate(HY.paths_of(fl.out)):
        if not isinstance(v, Adt) or v.variant != 'Ok':
            continue
        b = v.fields['0']
        if isinstance(b, Arr) and isinstance(b.body, E) and b.body.op == 'elem' and b.body.args[0] in sols:
            if tuple(b.body.args[1:]) == tuple(b.bvs):
                rep.ok('%s:coefficients%d' % (key, n), where)
            else:
                rep.bad('%s:coefficients%d' % (key, n), where, 'the returned array is %s' % show_val(b)[:200])
        elif isinstance(b, Arr) and isinstance(b.body, E) and not [x for x in walk(b.body) if x.op == 'top'] and len(sols) == 1:
            s = list(sols)[0]
            for p_, q in equal_val(b, Arr(b.shape, b.bvs, elem(s, *b.bvs)), spc.with_(cons=pc)):
                rep.res('%s:coefficients%d%s' % (key, n, p_), where, q)
        else:
            rep.und('%s:coefficients%d' % (key, n), where, show_val(b)[:200])
    for old, m in I.pycells:
        now = I.read(m)
        same_arrays(rep, key + ":caller's array", where, I, now, old, 'written to: ')


def same_arrays(rep, key, where, I, got, want, pre=''):
    if isinstance(want, Adt):
        if not isinstance(got, Adt) or got.path != want.path:
            rep.und(key, where, pre + show_val(got)[:200])
            return
        for n in want.fields:
            same_arrays(rep, '%s.%s' % (key, n), where, I, got.fields.get(n), want.fields[n], pre)
        return
    if not isinstance(got, Arr) or not isinstance(got.body, E):
        rep.und(key, where, pre + show_val(got)[:200])
        return
    w = subst_bvs(want, got)
    if w is not None and canon(got.body) is canon(w):
        rep.ok(key, where)
        return
    g = got.body
    tops = [x for x in walk(g) if x.op == 'top']
    if tops or w is None and len(got.shape) == len(want.shape):
        rep.und(key, where, pre + show_val(got)[:200])
        return
    if len(got.shape) != len(want.shape):
        rep.bad(key, where, pre + 'it is %s' % show_val(got)[:200])
        return
    for p_, q in equal_val(got, want, HY.hspace([])):
        if q.status == 'undecided' and g.op == 'elem' and w.op == 'elem' and g.args[0].op == 'sym' and g.args[0] is not w.args[0]:
            q = Res('violated', 1, 'it is %s, documented is %s' % (show(g), show(w)))
        rep.res(key + p_, where, q)


def subst_bvs(want, got):
    if len(want.bvs) != len(got.bvs):
        return None
    return subst(want.body, dict(zip(want.bvs, got.bvs)))


def Y03(api, rep):
    py = Py(api)
    tab = bindings(api)
    set_ranks(py, tab)
    for cls in CLASSES:
        for sc in INPUTS:
            key = '%s/%s' % (cls, sc.name)
            where = '%s::%s.fit' % (FILE, cls)
            outs = py.paths(lambda I: fitted(I, py, cls, sc), sc.oracle)
            good = succeeded(rep, key, outs, where, '%s input' % sc.name)
            for i, (o, ws, full) in enumerate(good):
                k = key if len(good) == 1 else '%s(path %d)' % (key, i)
                wl = Wits(ws)
                wl.pc = o.I.pc
                compose(api, py, tab, rep, cls, sc, o, wl, k, 'data')
                obj = o.val[0]
                stored(rep, k, where, o, obj)
            writes(rep, key, where, outs)
    note(rep, py)


def stored(rep, key, where, o, obj):
    evs = native_fits(o)
    v = obj.attrs.get('coef_')
    if not evs:
        return
    last = 'native result %d' % len(evs)
    if isinstance(v, Data) and v.who.startswith('native result'):
        want_tr = v.rank != 1
        if v.who != last and len(evs) > 1:
            rep.und(key + ':coef_', where, 'coef_ is %r' % (v,))
        elif v.changes():
            rep.bad(key + ':coef_', where, 'the coefficients are changed: %r' % (v,))
        else:
            rep.check(key + ':coef_', where, v.tr == want_tr, 'coef_ is %r, documented is its transpose' % (v,))
    elif v is None or isinstance(v, (Const, Data)) :
        rep.bad(key + ':coef_', where, 'after fit coef_ is %r' % (v,))
    else:
        rep.und(key + ':coef_', where, 'coef_ is %r' % (v,))


def writes(rep, key, where, outs):
    bad = und = None
    for o in outs:
        for e in o.I.events:
            if e[0] == 'write' and e[1].buf.who.startswith('caller:') and not e[1].buf.who.endswith("'") and not e[1].who.startswith('native'):
                if witnesses(o.I.pc)[0]:
                    bad = bad or "the caller's %s is written: %s" % (e[1].who, e[2])
            if e[0] == 'escape' and e[1].buf.who.startswith('caller:') and not e[1].buf.who.endswith("'"):
                und = und or '%s is passed to %s' % (e[1].who, e[2])
    rep.add(key + ':no writes', where, 'violated' if bad else 'undecided' if und else 'held', bad or und or '', len(outs))


# ================================================================ Y04
def Y04(api, rep):
    py = Py(api)
    tab = bindings(api)
    set_ranks(py, tab)
    native_errors(api, rep, tab)
    for cls in CLASSES:
        where = '%s::%s.fit' % (FILE, cls)
        # a native rejection
        for sc in (DENSE, SPARSE):
            key = '%s/%s:rejection' % (cls, sc.name)
            outs = py.paths(lambda I: fitted(I, py, cls, sc), sc.oracle, raises=['ValueError'])
            n = 0
            bad = und = None
            for o in outs:
                if o.kind == 'unknown':
                    und = und or str(o.val)
                    continue
                if o.I.raised_by is None:
                    continue
                n += 1
                if o.kind == 'raise' and 'ValueError' in o.val.names():
                    continue
                ws, full = witnesses([(t, b) for t, b in o.I.pc if t.op != 'raises'])
                if ws:
                    bad = bad or 'the native fit raises ValueError, fit %s' % ('raises %r' % o.val if o.kind == 'raise' else 'returns')
            rep.add(key, where, 'violated' if bad else 'undecided' if und or not n else 'held', bad or und or ('' if n else 'no native call'), n)
        # different numbers of samples
        for sc in (Scen('dense', match=False), Scen('sparse', sparse=True, match=False), Scen('dense float32', xd='float32', match=False)):
            key = '%s/%s:sample numbers differ' % (cls, sc.name)
            outs = py.paths(lambda I: fitted(I, py, cls, sc), sc.oracle)
            bad = und = None
            for o in outs:
                if o.kind == 'unknown':
                    und = und or str(o.val)
                    continue
                ws, full = witnesses(o.I.pc)
                if not ws:
                    continue
                if native_fits(o):
                    bad = bad or 'native code runs on them (line %d)' % native_fits(o)[0][5]
                elif o.kind == 'return':
                    bad = bad or 'fit returns'
                elif 'ValueError' not in o.val.names():
                    bad = bad or 'fit raises %r' % o.val
            rep.add(key, where, 'violated' if bad else 'undecided' if und else 'held', bad or und or '', len(outs))
        # a one-dimensional target for a multi-task estimator
        if CLASSES[cls][2]:
            for sc in (DENSE, SPARSE):
                outs = py.paths(lambda I: fitted1(I, py, cls, sc), sc.oracle)
                bad = und = None
                for o in outs:
                    if o.kind == 'unknown':
                        und = und or str(o.val)
                    elif witnesses(o.I.pc)[0]:
                        if native_fits(o):
                            bad = bad or 'native code runs on it (line %d)' % native_fits(o)[0][5]
                        elif o.kind == 'return':
                            bad = bad or 'fit returns'
                        elif 'ValueError' not in o.val.names():
                            bad = bad or 'fit raises %r' % o.val
                rep.add('%s/%s:one-dimensional target' % (cls, sc.name), where, 'violated' if bad else 'undecided' if und else 'held', bad or und or '', len(outs))
    note(rep, py)


def fitted1(I, py, cls, sc):
    o = construct(I, py, cls)
    X, y = sc.data(False)
    return I.call(I.getattr(o, 'fit'), [X, y], {}, None)


# ================================================================ Y06
SETTINGS = {'max_iter': 'int', 'max_epochs': 'int', 'p0': 'int', 'K': 'int', 'tol': 'float'}


def Y06(api, rep):
    py = Py(api)
    tab = bindings(api)
    set_ranks(py, tab)
    pts = sorted(c for c in consts_in(py, None) if abs(c) < 1e9)

    def valid(n, v):
        return isinstance(v, Num) and v.ty == SETTINGS[n] and v.lo >= 0
    for cls, (est, own, multi) in CLASSES.items():
        where = '%s::%s.fit' % (FILE, cls)
        basekw = {'alpha': Num('float', 0.0, 1.0), 'gamma': Num('float', 1.0, math.inf), 'l1_ratio': Num('float', 0.0, 1.0)}
        basekw = {o: basekw[o] for o in own}
        basekw.update(use_accel=Sym('use_accel', 'bool'), verbose=Sym('verbose', 'bool'))

        def setv(n, k):
            t = SETTINGS[n]
            return [Num(t, 0.0 if t == 'float' else 0), Num(t, 0, 1) if t == 'float' else Num(t, 1), Num(t, 1000.0 if t == 'float' else 1000)][k]
        combos = []
        for n, t in SETTINGS.items():
            cells = []
            for c in number_cells(pts):
                lo, hi = c[1], c[2] if c[0] == 'iv' else c[1]
                if lo != lo or math.isinf(lo) and lo == hi:
                    continue
                cells.append(Num('float', lo, hi))
                if not (c[0] == 'pt' and lo != int(lo)):
                    cells.append(Num('int', lo, hi))
            cells += [Other('str'), Const(None), Other('list')]
            for v in cells:
                for k in (0, 1, 2):
                    combos.append({**{m: setv(m, k) for m in SETTINGS}, n: v})
                for m, mt in SETTINGS.items():
                    if m != n:
                        combos.append({**{q: setv(q, 1) for q in SETTINGS}, n: v, m: Num(mt, -1.0 if mt == 'float' else -1)})
        first = {'accepts only valid': None, 'rejects only invalid': None, 'ValueError': None, 'message': None}
        und = None
        for kw in combos:
            inv = [n for n in SETTINGS if not valid(n, kw[n])]
            txt = ', '.join('%s = %r' % (k, v) for k, v in kw.items())

            def body(I):
                o = I.call(py.cls(cls), [], {**basekw, **kw}, None)
                X, y = DENSE.data(multi)
                return I.call(I.getattr(o, 'fit'), [X, y], {}, None)
            for o in py.paths(body, DENSE.oracle):
                if o.kind == 'unknown':
                    und = und or '%s: %s' % (txt, o.val)
                    continue
                if not witnesses(o.I.pc)[0]:
                    continue
                sure = all(syms_of(t, set()) for t, b in o.I.pc)
                ran = native_fits(o)
                if inv and (o.kind == 'return' or ran):
                    k, m = 'accepts only valid', '%s: %s' % ('native code runs' if ran else 'fit returns', txt)
                elif o.kind == 'raise' and not inv:
                    k, m = 'rejects only invalid', 'raises %r: %s' % (o.val, txt)
                elif o.kind == 'raise' and 'ValueError' not in o.val.names():
                    k, m = 'ValueError', 'raises %r instead of ValueError: %s' % (o.val, txt)
                elif o.kind == 'raise' and misreport(o.val, {**basekw, **kw}, inv):
                    k, m = 'message', '%s (%s)' % (misreport(o.val, {**basekw, **kw}, inv), txt)
                else:
                    continue
                if not sure:
                    und = und or '%s under %r' % (m, o.I.pc)
                elif first[k] is None:
                    first[k] = m
        for k, m in first.items():
            rep.add('%s:%s' % (cls, k), where, 'violated' if m else 'undecided' if und else 'held', m or und or '', len(combos))
        rep.count('settings cells', len(combos))
        # settings reassigned after a first fit
        bad = und = None
        cnt = 0
        ok1 = {m: setv(m, 1) for m in SETTINGS}
        for n, t in SETTINGS.items():
            for v in (Num(t, -1.0 if t == 'float' else -1), Num('int' if t == 'float' else 'float', 1), Other('str')):
                cnt += 1

                def again(I):
                    o = I.call(py.cls(cls), [], {**basekw, **ok1}, None)
                    X, y = DENSE.data(multi)
                    I.call(I.getattr(o, 'fit'), [X, y], {}, None)
                    if n not in o.attrs:
                        raise P.Stuck('no attribute %s' % n)
                    I.setattr(o, n, v)
                    I.cut = len(I.events)
                    X, y = DENSE.data(multi)
                    return I.call(I.getattr(o, 'fit'), [X, y], {}, None)
                for o in py.paths(again, DENSE.oracle):
                    m = None
                    if o.kind == 'unknown':
                        und = und or str(o.val)
                        continue
                    if not witnesses(o.I.pc)[0] or not hasattr(o.I, 'cut'):
                        continue
                    if o.kind == 'return' or any(e[0] == 'native' for e in o.I.events[o.I.cut:]):
                        m = 'a second fit accepts %s = %r' % (n, v)
                    elif 'ValueError' not in o.val.names():
                        m = 'a second fit raises %r for %s = %r' % (o.val, n, v)
                    if m and all(syms_of(t, set()) for t, b in o.I.pc):
                        bad = bad or m
                    elif m:
                        und = und or m
        rep.add('%s:second fit' % cls, where, 'violated' if bad else 'undecided' if und else 'held', bad or und or '', cnt)
    note(rep, py)


def native_errors(api, rep, tab):
    """every configuration the native estimator rejects comes out of the wrapper as a ValueError"""
    for w in tab.values():
        if not w.new or w.new[2] is None or w.new[0] is None:
            rep.und('%s::new' % w.name, w.adt, 'constructor not understood')
            continue
        # the role of each parameter of `new`: by what it sets (Y02 decides that it is the right one)
        f = w.new[2]
        vals, roles_ = {}, []
        for n, t in zip(w.new[0], f['inputs']):
            r = {'k': 'K'}.get(n, n)
            if r in HY.ROLE:
                vals[n] = HY.rs(r)
                roles_.append(r)
            else:
                vals[n] = sym('py:' + n, 'B' if t == ('prim', 'bool') else 'R' if t == F64 else 'N')
        for m, (names, req, g) in w.methods.items():
            if g is None or names is None:
                rep.und('%s::%s' % (w.name, m), w.adt, 'not understood')
                continue
            ats = [array_type(t) for t in g['inputs'][1:]]
            if not any(ats):
                continue
            key = '%s::%s' % (w.name, m)
            d = {n: Data('arg:' + n, None, False, 1, 'F', Buf('arg')) for n in names}
            fl = Flow(api, w, vals, m, d, None)
            rep.analysed(fl.r.I)
            if fl.out is None:
                rep.und(key, w.adt, show_val(fl.new_out)[:200])
                continue
            reference = native_reference(api, fl)
            if reference is None:
                rep.und(key, g['path'], 'the native fit it calls is not recognised')
                continue
            pan = [e for e in fl.r.I.effects if e.kind == 'panic']
            rel = [e for e in pan if any(x in [HY.rs(r) for r in roles_] for c in e.pc for x in walk(c))]
            conds = HY.conds_of(fl.out, []) + HY.conds_of(reference, []) + [c for e in rel for c in e.pc]
            cells, joint = HY.cells_of(conds, roles_)
            total = 1
            for v in cells.values():
                total *= len(v)
            nm = list(cells)
            if total <= 40000:
                combos = itertools.product(*[cells[n] for n in nm])
            else:
                base = {n: next(v for v in cells[n] if HY.VALID.get(n, lambda z: True)(v)) for n in nm}
                combos = (tuple({**base, a: x, b: y}[n] for n in nm) for a, b in itertools.combinations(nm, 2) for x in cells[a] for y in cells[b])
            bad = und = None
            cnt = 0
            try:
                for combo in combos:
                    env = {HY.rs(r): v for r, v in zip(nm, combo)}
                    ref = HY.leaf(reference, env)
                    cnt += 1
                    if not (isinstance(ref, Adt) and ref.variant == 'Err'):
                        continue
                    cell = HY.show_cell(env, nm)
                    if any(all(fev(c, env) for c in e.pc) for e in rel):
                        e = next(e for e in rel if all(fev(c, env) for c in e.pc))
                        bad = bad or 'panics (%s line %s) where the native fit returns an error: %s' % (e.site[0], e.site[1], cell)
                        continue
                    v = HY.leaf(fl.out, env)
                    if not isinstance(v, Adt) or v.variant not in ('Ok', 'Err'):
                        und = und or show_val(v)[:200]
                    elif v.variant == 'Ok':
                        bad = bad or 'succeeds where the native fit returns an error: %s' % cell
                    else:
                        x = v.fields['0']
                        if isinstance(x, E) and x.op == 'app' and str(x.args[0]).startswith('pyerr:'):
                            nme = x.args[0].split(':')[1].replace('Py', '', 1)
                            if 'ValueError' not in P.exc_bases(nme):
                                bad = bad or 'raises %s where the native fit returns an error: %s' % (nme, cell)
                        else:
                            und = und or 'the error is %s' % show_val(x)[:200]
            except NotScalar as ex:
                und = 'not a comparison of hyperparameters with constants: %s' % ex
            rep.add(key, g['path'], 'violated' if bad else 'undecided' if und else 'held', bad or und or '', cnt)


def native_reference(api, fl):
    """the native Fit of the configuration the wrapper holds"""
    cands = []

    def go(v):
        if isinstance(v, Adt):
            for est in HY.EST:
                if HY.strip(HY.params_type(api, est))[1] == v.path:
                    cands.append((est, v))
                    return
            for x in v.fields.values():
                go(x)
    go(fl.obj)
    if len(cands) != 1:
        return None
    est, v = cands[0]
    r = HY.fit_once(api, est, 'dense', lambda r_, p: v)
    return r.out


# ================================================================ Y05
def Y05(api, rep):
    py = Py(api)
    tab = bindings(api)
    set_ranks(py, tab)
    for cls, (est, own, multi) in CLASSES.items():
        where = '%s::%s.predict' % (FILE, cls)

        def pred(I, o, Z):
            return I.call(I.getattr(o, 'predict'), [Z], {}, None)

        def newX(sc):
            return Data('Z', 'float64', sc.sparse, 2, 'csc' if sc.sparse else 'F', Buf('caller:Z'))
        for sc in (DENSE, SPARSE):
            # before fit
            def before(I):
                o = construct(I, py, cls)
                I.mark = True
                return pred(I, o, newX(sc))
            unfitted(rep, '%s/%s:before fit' % (cls, sc.name), where, [q for q in py.paths(before) if getattr(q.I, 'mark', False) or q.kind == 'unknown'])

            # after a fit that failed
            def failed(I):
                o = construct(I, py, cls)
                X, y = sc.data(multi)
                try:
                    I.call(I.getattr(o, 'fit'), [X, y], {}, None)
                except P.PyRaise:
                    I.mark = True
                    I.raisepc = list(I.pc)
                    return pred(I, o, newX(sc))
                return None
            outs = py.paths(failed, sc.oracle, raises=['ValueError'], ext=True)
            unfitted(rep, '%s/%s:after a failed fit' % (cls, sc.name), where, [q for q in outs if getattr(q.I, 'mark', False) or q.kind == 'unknown'])

            # after one and two fits
            for k in (1, 2):
                def after(I, k=k):
                    o = construct(I, py, cls)
                    for _ in range(k):
                        X, y = sc.data(multi)
                        r = I.call(I.getattr(o, 'fit'), [X, y], {}, None)
                    I.mark = True
                    I.res = r
                    I.obj = o
                    I.before = {n: v for n, v in o.attrs.items()}
                    I.nw = len(I.events)
                    nat = I.nnat
                    Z = newX(sc)
                    a = pred(I, o, Z)
                    I.after1 = dict(o.attrs)
                    b = pred(I, o, Z)
                    return a, b, nat
                outs = [q for q in py.paths(after, sc.oracle) if getattr(q.I, 'mark', False) or q.kind == 'unknown']
                predictions(rep, '%s/%s:after %s' % (cls, sc.name, 'fit' if k == 1 else 'a second fit'), where, outs, k)
    note(rep, py)


def unfitted(rep, key, where, outs):
    bad = und = None
    n = 0
    for o in outs:
        if o.kind == 'unknown':
            und = und or str(o.val)
            continue
        n += 1
        if o.kind != 'return':
            continue
        pc = [(t, b) for t, b in o.I.pc if t.op != 'raises']
        ws, full = witnesses(pc)
        if not ws:
            continue
        other = [t for t, b in pc if not syms_of(t, set())]
        if other:
            und = und or 'predict returns %r under %r' % (o.val, other[0])
        else:
            bad = bad or 'predict returns %r instead of raising' % (o.val,)
    rep.add(key, where, 'violated' if bad else 'undecided' if und or not n else 'held', bad or und or ('' if n else 'no path'), n)


def predictions(rep, key, where, outs, k):
    und = None
    n = 0
    first = {}

    def fail(w, m):
        first.setdefault(w, m)
    for o in outs:
        if o.kind == 'unknown':
            und = und or str(o.val)
            continue
        ws, full = witnesses(o.I.pc)
        if not ws:
            continue
        n += 1
        sure = all(syms_of(t, set()) or not b for t, b in o.I.pc)
        if o.kind == 'raise':
            if sure:
                fail('prediction', 'predict raises %r after fit (%s)' % (o.val, showenv(ws[0])))
            else:
                und = und or 'predict raises %r' % (o.val,)
            continue
        a, b, nat = o.val
        for v, w in ((a, 'prediction'), (b, 'second prediction')):
            r = product(v, 'native result %d' % nat)
            if r is None:
                und = und or 'predict returns %r' % (v,)
            elif r:
                fail(w, r)
        at0, at1 = o.I.before, o.I.after1
        ch = [x for x in set(at0) | set(at1) if x not in at0 or x not in at1 or not P.same(at0[x], at1[x]) and at0[x] is not at1[x]]
        ch = [x for x in ch if x not in ('n_features_in_', 'feature_names_in_')]
        wr = [e for e in o.I.events[o.I.nw:] if e[0] == 'write' and e[1].who.startswith('native')]
        if ch or wr:
            fail('unchanged', 'predict changes the estimator: %s' % (', '.join(sorted(ch)) if ch else wr[0][2]))
        if any(e[0] == 'write' and e[1].who == 'Z' for e in o.I.events[o.I.nw:]):
            fail('unchanged', "predict writes to the caller's X")
        if o.I.res is not o.I.obj:
            fail('fit returns the estimator', 'fit returns %r' % (o.I.res,))
    for w in ('prediction', 'second prediction', 'unchanged', 'fit returns the estimator'):
        m = first.get(w)
        rep.add('%s:%s' % (key, w), where, 'violated' if m else 'undecided' if und or not n else 'held', m or und or ('' if n else 'no path'), n)


SAMEVAL = ('asarray', 'array', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'copy', 'atleast_1d')
RESHAPE = ('ravel', 'flatten', 'squeeze')
OTHERVAL = ('abs', 'absolute', 'clip', 'round', 'around', 'sign', 'rint', 'floor', 'ceil', 'trunc', 'exp', 'log', 'square', 'negative', 'nan_to_num', 'sort',
            'cumsum', 'tanh', 'sum', 'mean', 'max', 'min', 'argmax', 'maximum', 'minimum', 'flip', 'flipud', 'fliplr', 'sqrt', 'log1p', 'expm1')


def flipped(v):
    """(b a)^T written as a^T b^T"""
    def T(x):
        if isinstance(x, Data):
            return x if x.rank == 1 else x.with_(tr=not x.tr)
        return Term('T', x)
    while isinstance(v, Term) and v.op == 'T' and isinstance(v.args[0], Term):
        w = v.args[0]
        if w.op == 'T':
            v = w.args[0]
        elif w.op == 'matmul' and all(isinstance(x, Data) for x in w.args):
            v = Term('matmul', T(w.args[1]), T(w.args[0]))
        else:
            break
    if isinstance(v, Term) and v.op == 'matmul' and all(isinstance(x, Data) for x in v.args) and v.args[0].rank == 1:
        # coefficients @ Z^T is Z @ coefficients for one vector of coefficients
        v = Term('matmul', T(v.args[1]), v.args[0])
    return v


def neutral(v):
    """v + 0, v * 1, v / 1 without the neutral element"""
    while isinstance(v, Term) and v.op == 'bin':
        op, a, b = v.args
        op = op if isinstance(op, str) else op.v
        k = lambda x, c: isinstance(x, P.Const) and type(x.v) in (int, float) and x.v == c
        if op in ('Add', 'Sub') and k(b, 0) or op in ('Mult', 'Div', 'Pow') and k(b, 1):
            v = a
        elif op == 'Add' and k(a, 0) or op == 'Mult' and k(a, 1):
            v = b
        else:
            break
    return v


def seen_through(v):
    """-> (product, what was done to it that changes it, something unknown was done)"""
    how = []
    while isinstance(v, Term):
        v = neutral(flipped(v))
        if v.op == 'item':
            ix = v.args[1].xs if isinstance(v.args[1], P.Seq) else [v.args[1]]
            if any(isinstance(x, P.Const) and (type(x.v) is int or x.v is None) for x in ix):
                how.append('value:item')
            elif not all(isinstance(x, Term) and x.op == 'slice' and all(isinstance(y, P.Const) and y.v is None for y in x.args) for x in ix):
                return v, how, True
            v = v.args[0]
            continue
        if v.op != 'call' or not isinstance(v.args[0], Term):
            break
        f, args, kw = v.args[0], v.args[1].xs, [k for k, _ in v.args[2].d.values()]
        meth = f.op in ('attr', 'ameth')
        name = (str(f.args[1].v) if isinstance(f.args[1], P.Const) else str(f.args[1])) if meth else str(f.args[0]).split('.')[-1] if f.op == 'ext' else ''
        if not meth and not str(f.args[0]).startswith('numpy.') or not meth and not args:
            return v, how, True
        inner = f.args[0] if meth else args[0]
        rest = args if meth else args[1:]
        if name in SAMEVAL and not rest and not kw:
            pass
        elif name == 'astype' and meth and len(rest) == 1 and rest[0].__class__ in (Term, P.Const):
            dt = str(rest[0].v if isinstance(rest[0], P.Const) else rest[0]).split('.')[-1]
            if dt in ('float32', 'float16', 'int', 'int32', 'int64', 'f4', 'single', 'half'):
                how.append('value:astype')
            elif dt not in ('float64', 'double', 'float', 'f8'):
                return v, how, True
        elif name in RESHAPE and not rest and not kw or name == 'reshape' and len(rest) == 1 and isinstance(rest[0], P.Const) and rest[0].v == -1 and not kw:
            how.append(name)
        elif name in OTHERVAL and not kw:
            how.append('value:' + name)
        else:
            return v, how, True
        v = inner
    return v, how, False


def product(v, who):
    """'' if v is Z @ coefficients, a text if it certainly is not, None if unknown"""
    if isinstance(v, Term) and v.op in ('bin', 'T', 'matmul'):
        v = neutral(flipped(v))
    if isinstance(v, Term) and v.op in ('call', 'item'):
        p, how, unk = seen_through(v)
        if unk:
            return None
        r = product(p, who)
        if r or r is None:
            return r
        for h in how:
            if h.startswith('value:'):
                return 'predict returns %r' % (v,)
            if p.args[1].rank != 1 or h == 'squeeze':
                return 'the prediction is %s: %s loses dimensions (of a single row, a single task or all of them)' % (short_(v), h)
        return ''
    if isinstance(v, Term) and v.op == 'matmul':
        a, b = v.args
        if isinstance(a, Data) and isinstance(b, Data):
            if a.who != 'Z' or not b.who.startswith('native result'):
                return 'predict returns %r' % (v,)
            if a.changes() or b.changes() or a.part or b.part:
                return 'predict returns %r' % (v,)
            if b.who != who:
                return 'predict returns %r, the last fit gave %s' % (v, who)
            if a.tr:
                return 'predict returns %r' % (v,)
            if b.rank != 1 and b.tr:
                return 'predict multiplies X with the coefficients of the wrong orientation: %r' % (v,)
            if a.dtype not in ('float64',):
                return None
            return ''
        return None
    if isinstance(v, (Const, Data, Num, P.Seq, P.Obj)):
        return 'predict returns %r' % (v,)
    if isinstance(v, Term) and v.op in ('bin', 'neg', 'cmp', 'not'):
        return 'predict returns %r' % (v,)
    if isinstance(v, Term) and v.op == 'nosparse':
        return 'predict calls %s on a sparse matrix, which numpy does not multiply as a matrix: %r' % (v.args[0].v, v)
    return None


def short_(v):
    return repr(v)[:120]


# ================================================================ S06, Python part
def S06_python(api, rep):
    """nothing is printed by fit when verbose is off"""
    py = Py(api)
    tab = bindings(api)
    set_ranks(py, tab)
    for cls in CLASSES:
        where = '%s::%s.fit' % (FILE, cls)
        for sc in (DENSE, SPARSE):
            bad = und = None
            outs = py.paths(lambda I: fitted(I, py, cls, sc), sc.oracle)
            for o in outs:
                if o.kind == 'unknown':
                    und = und or str(o.val)
                for e in o.I.events:
                    if e[0] == 'print':
                        ws, full = witnesses(e[1] + [(Sym('verbose', 'bool'), False)])
                        if ws and full:
                            bad = bad or 'line %s prints although verbose is off' % e[2]
                        elif ws:
                            und = und or 'line %s prints' % e[2]
            rep.add('Python %s/%s:output' % (cls, sc.name), where, 'violated' if bad else 'undecided' if und else 'held', bad or und or '', len(outs))
    note(rep, py)


# ================================================================ H03: documented defaults of the Python estimators
DOC_PY = {'max_iter': 50, 'max_epochs': 1000, 'tol': 1e-9, 'p0': 10, 'use_accel': True, 'K': 5, 'verbose': True}


def all_known(pc, env):
    """do the conditions on constructor arguments hold for sure? (conditions on the data are chosen by the caller)"""
    for t, b in pc:
        try:
            if bool(pyev(t, env)) != b:
                return False
        except Unknown:
            if syms_of(t, set()):
                return False
    return True


def H03_python(api, rep):
    py = Py(api)
    tab = bindings(api)
    set_ranks(py, tab)
    for cls, (est, own, multi) in CLASSES.items():
        where = '%s::%s.__init__' % (FILE, cls)

        def run(given):
            def body(I):
                kw = {n: Sym(n, TYPE[n]) for n in own}
                kw.update({n: Const(DOC_PY[n]) for n in given})
                o = I.call(py.cls(cls), [], kw, None)
                X, y = DENSE.data(multi)
                I.call(I.getattr(o, 'fit'), [X, y], {}, None)
                return o
            return succeeded(rep, '%s%s' % (cls, '' if given else ' defaults'), py.paths(body, DENSE.oracle), where, 'default settings')

        def handed(o):
            """(native class, constructor arguments by name) of every native fit"""
            out = []
            for ev in native_fits(o):
                w = tab.get(ev[1].cls)
                b = bind(w.new[0], w.new[1], ev[1].args, ev[1].kw)[0] if w is not None else None
                if b is None:
                    return None
                out.append((ev[1].cls, b))
            return out
        full, left = run(COMMON), run([])
        got = [(o, handed(o)) for o, *_ in left]

        def without(n):
            # only n left unset, everything else arbitrary
            def body(I):
                o = I.call(py.cls(cls), [], {m: v for m, v in kwargs(cls).items() if m != n}, None)
                X, y = DENSE.data(multi)
                I.call(I.getattr(o, 'fit'), [X, y], {}, None)
                return o
            return [(o, handed(o)) for o, *_ in succeeded(rep, '%s without %s' % (cls, n), py.paths(body, DENSE.oracle), where, '%s left unset' % n)]
        want = [handed(o) for o, *_ in full]
        if not got or not want or any(h is None for o, h in got) or any(h is None for h in want):
            rep.und(cls + ':defaults', where, 'no native call understood')
            continue
        ref = want[0]
        for n in COMMON:
            key = '%s:%s' % (cls, n)
            # which constructor arguments carry n: those that follow when the documented value is replaced
            pars = set()
            for other in {'max_iter': (51, 2000), 'max_epochs': (1001, 9999), 'tol': (1e-5, .25), 'p0': (11, 400), 'use_accel': (False,), 'K': (6, 40), 'verbose': (False,)}[n]:
                def body(I):
                    kw = {m: Sym(m, TYPE[m]) for m in own}
                    kw.update({m: Const(DOC_PY[m] if m != n else other) for m in COMMON})
                    o = I.call(py.cls(cls), [], kw, None)
                    X, y = DENSE.data(multi)
                    I.call(I.getattr(o, 'fit'), [X, y], {}, None)
                    return o
                moved = [handed(o) for o in py.paths(body, DENSE.oracle) if o.kind == 'return']
                pars |= {pn for h in moved if h and len(h) == len(ref) for (c, b), (c0, b0) in zip(h, ref)
                         for pn in b if pn in b0 and P.vkey(b[pn]) != P.vkey(b0[pn])}
            native = {r_: pn for pn in ref[0][1] for r_ in COMMON if pn == r_ or pn == ROLE[r_] or pn.lower() == r_.lower() or r_ == 'use_accel' and pn == 'use_acceleration'}
            if len(pars) > 1 and native.get(n) in pars:
                pars = {native[n]}
            if len(pars) != 1:
                # named alike in the binding table
                pars = {n} if all(n in b for c, b in ref) else pars
            if len(pars) != 1:
                rep.und(key, where, 'constructor arguments %s follow %s' % (sorted(pars), n))
                continue
            pn = pars.pop()
            st, why = 'held', ''
            for o, h in got + without(n):
                if h is None:
                    st, why = ('undecided', 'a native call is not understood') if st == 'held' else (st, why)
                    continue
                for c, b in h:
                    v = b.get(pn)
                    if v is None:
                        st, why = ('undecided', 'a default of the native constructor') if st == 'held' else (st, why)
                        continue
                    if isinstance(v, Const) and v.v == DOC_PY[n]:
                        continue
                    envs, full_ = witnesses(o.I.pc, [v])
                    hit = None
                    for env in envs:
                        try:
                            x = pyev(v, env)
                        except Unknown:
                            break
                        if not x == DOC_PY[n] and all_known(o.I.pc, env):
                            hit = (x, env)
                            break
                    if hit:
                        st, why = 'violated', '%s left unset reaches the native solver as %r (%s), documented default %r' % (n, hit[0], showenv(hit[1]), DOC_PY[n])
                    elif st == 'held':
                        st, why = 'undecided', 'the value is %r' % (v,)
            rep.add(key, where, st, why, 1)
    note(rep, py)
