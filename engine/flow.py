"""Call graph and information flow on the THIR of the two crates (flow-insensitive over variables, field-insensitive, context-sensitive
over which parameters of a function are tainted)."""


def nodes(x):
    """every expression node below x, closures not entered"""
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            if 'k' in y:
                yield y
            for k, v in y.items():
                if k not in ('ty', 'sp') and isinstance(v, (dict, list)):
                    todo.append(v)
        elif isinstance(y, list):
            todo.extend(v for v in y if isinstance(v, (dict, list)))


def ty_has(t, pred):
    if isinstance(t, tuple):
        return (len(t) >= 2 and isinstance(t[0], str) and pred(t)) or any(ty_has(a, pred) for a in t)
    return False


def is_mut_ty(t):
    return ty_has(t, lambda a: len(a) >= 2 and ((a[0] == 'ref' and a[1] is True) or (a[0] == 'adt' and isinstance(a[1], str) and 'Mut' in a[1].split('::')[-1])))


class Graph:
    """call graph: resolved callees; a call through a trait goes to every local implementation and the provided method"""

    def __init__(self, prog):
        self.p = prog
        self.edges = {}
        self.ext = {}

    def callee(self, c):
        """(local function ids, extern path or None) of a callee record"""
        p = self.p
        out = []
        rid = (c.get('res') or {}).get('id')
        for i in (rid, c.get('id')):
            f = p.fns.get(i)
            if f is not None and f.get('_raw') is not None and not (c.get('trait') and i == c.get('id') and i != rid):
                out.append(i)
                break
        tr = c.get('trait')
        if not out and tr in p.traits:
            for im in p.impls:
                if im['trait'] == tr and c['name'] in im['itemd']:
                    out.append(im['itemd'][c['name']])
            for it in p.traits[tr]['items']:
                if it[0] == c['name'] and it[2]:
                    out.append(it[1])
        if out:
            return out, None
        # an operator or conversion implemented here for a local type
        if tr and tr not in p.traits:
            for im in p.impls:
                if im['trait'] == tr and c['name'] in im['itemd'] and not im.get('derived'):
                    out.append(im['itemd'][c['name']])
        return out, (c.get('res') or {}).get('path') or c['path']

    def of(self, fid):
        """-> ([(callee ids, extern path, node)], closures)"""
        r = self.edges.get(fid)
        if r is None:
            f = self.p.fns[fid]
            calls, clos = [], []
            for n in nodes(self.p.body(f) or {}):
                if n['k'] in ('Call', 'Zst') and n.get('fn'):
                    ids, ext = self.callee(n['fn'])
                    calls.append((ids, ext, n))
                elif n['k'] == 'Closure':
                    clos.append(n['id'])
                elif n['k'] in ('Const', 'Static') and n.get('id') in self.p.fns:
                    clos.append(n['id'])
            r = self.edges[fid] = (calls, clos)
        return r

    def reach(self, roots):
        seen, todo = {}, [(r, None) for r in roots]
        while todo:
            f, via = todo.pop()
            if f in seen or f not in self.p.fns or self.p.fns[f].get('_raw') is None:
                continue
            seen[f] = via
            calls, clos = self.of(f)
            for ids, ext, n in calls:
                todo += [(i, f) for i in ids]
            todo += [(c, f) for c in clos]
        return seen

    def chain(self, seen, f):
        out = []
        while f is not None:
            out.append(self.p.fns[f]['path'])
            f = seen.get(f)
        return ' <- '.join(out)


class Flow:
    """does a value that stems from a source reach a function's result (or what its mutable parameters refer to)?"""

    def __init__(self, prog, graph, source, passive=()):
        self.p, self.g, self.source, self.passive = prog, graph, source, passive
        self.memo = {}
        self.why = {}

    def summary(self, fid, tainted):
        key = (fid, tainted)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (False, frozenset())
        for _ in range(6):                      # recursion: iterate to a fixpoint
            r = self.run(fid, tainted)
            if r == self.memo[key]:
                break
            self.memo[key] = r
        return self.memo[key]

    def run(self, fid, tainted):
        f = self.p.fns[fid]
        body = self.p.body(f)
        if body is None:
            return bool(tainted), frozenset()
        A = _Act(self, f)
        for k in tainted:
            for v in binds(f['params'][k]['p']) if k < len(f['params']) else []:
                A.taint.add(v)
        params = [set(binds(p['p'])) for p in f['params']]
        for _ in range(12):
            n = (len(A.taint), sum(len(v) for v in A.alias.values()), A.ret, len(A.hot), len(A.clo))
            t = A.ev(body, False)
            A.ret = A.ret or t
            if n == (len(A.taint), sum(len(v) for v in A.alias.values()), A.ret, len(A.hot), len(A.clo)):
                break
        mut = set()
        for k, (vs, t) in enumerate(zip(params, f['inputs'] or [None] * len(params))):
            if vs & (A.taint - {v for v in vs if k in tainted}) and (t is None or is_mut_ty(t)):
                mut.add(k)
            elif k in tainted:
                mut.add(k)
        return A.ret, frozenset(mut)


def binds(p):
    return [n['id'] for n in nodes(p) if n['k'] == 'Bind']


class _Act:
    """one function body under one assumption on its parameters"""

    def __init__(self, F, f):
        self.F, self.f = F, f
        self.taint = set()
        self.alias = {}
        self.clo = {}
        self.ret = False
        self.hot = set()      # loops left under a tainted condition

    # ------------------------------------------------------------- places
    def roots(self, e):
        k = e['k']
        if k == 'Var':
            return {e['id']} | self.alias.get(e['id'], set())
        if k in ('Field', 'Index', 'Deref', 'Borrow', 'Reborrow', 'RawBorrow', 'PtrCoerce', 'Cast', 'Use', 'NeverToAny'):
            return self.roots(e['e'])
        if k == 'Call':
            out = set()
            for a in e['args']:
                if is_mut_ty(a.get('ty')) or a['k'] == 'Borrow' and a.get('mut'):
                    out |= self.roots(a)
            return out
        if k in ('Tuple', 'Array'):
            return set().union(set(), *[self.roots(a) for a in e['es'] if is_mut_ty(a.get('ty'))])
        if k == 'Adt':
            return set().union(set(), *[self.roots(a) for _, a in e['fields'] if is_mut_ty(a.get('ty'))])
        if k == 'Block' and e.get('e') is not None:
            return self.roots(e['e'])
        if k == 'If':
            return self.roots(e['t']) | (self.roots(e['f']) if e['f'] else set())
        if k == 'Match':
            return set().union(set(), *[self.roots(a['b']) for a in e['arms']])
        return set()

    def write(self, e, t):
        if t:
            self.taint |= self.roots(e)

    def bind(self, pat, t, init=None):
        vs = binds(pat)
        if t:
            self.taint |= set(vs)
        if init is not None:
            r = self.roots(init) if is_mut_ty(init.get('ty')) or any(n.get('bymut') for n in nodes(pat)) else set()
            for v in vs:
                self.alias.setdefault(v, set()).update(r - {v})
            c = {n['id'] for n in nodes(init) if n['k'] == 'Closure'} if init['k'] in ('Closure', 'Borrow', 'Block', 'Tuple', 'If') else set()
            if init['k'] == 'Var':
                c |= self.clo.get(init['id'], set())
            if c:
                for v in vs:
                    self.clo.setdefault(v, set()).update(c)

    # -------------------------------------------------------- expressions
    def evs(self, es, ctl):
        return [self.ev(x, ctl) for x in es]

    def ev(self, e, ctl):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(e, ctl)
        t = False
        for kk, v in e.items():
            if kk in ('ty', 'sp', 'fn', 'p'):
                continue
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict) and 'k' in x:
                    t = self.ev(x, ctl) or t
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict) and 'k' in y:
                            t = self.ev(y, ctl) or t
        if self.F.source(e):
            self.F.why.setdefault(self.f['id'], (e.get('path') or k, e.get('sp')))
            return True
        return t

    def e_Var(self, e, ctl):
        return e['id'] in self.taint

    def e_Lit(self, e, ctl):
        return False

    def e_If(self, e, ctl):
        c = self.ev(e['c'], ctl)
        a = self.ev(e['t'], ctl or c)
        b = self.ev(e['f'], ctl or c) if e['f'] else False
        return a or b or (c and e['f'] is not None and not unit(e))

    def e_Let(self, e, ctl):
        t = self.ev(e['e'], ctl)
        self.bind(e['p'], t, e['e'])
        return t

    def e_Match(self, e, ctl):
        c = self.ev(e['e'], ctl)
        r = False
        many = len(e['arms']) > 1
        for a in e['arms']:
            self.bind(a['p'], c, e['e'])
            g = self.ev(a['g'], ctl or c) if a['g'] is not None else False
            r = self.ev(a['b'], ctl or (c and many) or g) or r
        return r or (c and many and not unit(e))

    def e_Block(self, e, ctl):
        for s in e['ss']:
            c2 = ctl or self.after(ctl)
            if s['k'] == 'L':
                t = self.ev(s['e'], c2) if s.get('e') else False
                self.bind(s['p'], t or False, s.get('e'))
                if s.get('else'):
                    self.ev(s['else'], c2 or t)
            else:
                self.ev(s['e'], c2)
        return self.ev(e['e'], ctl or self.after(ctl)) if e.get('e') else False

    def after(self, ctl):
        return 'ret' in self.hot

    def e_Loop(self, e, ctl):
        key = ('loop',) + tuple(e.get('scopes') or ()) + tuple(e.get('sp') or ())
        hot = key in self.hot
        n = len(self.hot)
        self.cur = getattr(self, 'cur', []) + [key]
        t = self.ev(e['b'], ctl or hot)
        self.cur = self.cur[:-1]
        return t

    def jump(self, ctl):
        if ctl:
            for key in getattr(self, 'cur', []):
                self.hot.add(key)

    def e_Break(self, e, ctl):
        self.jump(ctl)
        return self.ev(e['e'], ctl) if e.get('e') else False

    def e_Continue(self, e, ctl):
        self.jump(ctl)
        return False

    def e_Return(self, e, ctl):
        t = self.ev(e['e'], ctl) if e.get('e') else False
        if ctl:
            self.jump(ctl)
            self.hot.add('ret')
        self.ret = self.ret or t or (ctl and bool(e.get('e')) and not unit(e['e']))
        return False

    def e_NeverToAny(self, e, ctl):
        self.ev(e['e'], ctl)
        return False

    def e_Assign(self, e, ctl):
        t = self.ev(e['r'], ctl)
        t = t or self.idx(e['l'], ctl)
        self.write(e['l'], t or ctl)
        return False

    e_AssignOp = e_Assign

    def idx(self, e, ctl):
        if e['k'] == 'Index':
            return self.ev(e['i'], ctl) or self.idx(e['e'], ctl)
        if e['k'] in ('Field', 'Deref'):
            return self.idx(e['e'], ctl)
        if e['k'] == 'Call':
            return any([self.ev(a, ctl) for a in e['args'][1:]])
        return False

    def e_Closure(self, e, ctl):
        f = self.F.p.fns.get(e['id'])
        if f is None:
            return False
        b = self.F.p.body(f)
        n = self.ret
        t = self.ev(b, ctl) if b else False
        r, self.ret = self.ret, n
        return t or (r and not n)

    def clo_of(self, a):
        out = {n['id'] for n in nodes(a) if n['k'] == 'Closure'}
        for n in nodes(a):
            if n['k'] == 'Var':
                out |= self.clo.get(n['id'], set())
        return out

    def e_Call(self, e, ctl):
        F = self.F
        src = F.source(e)
        if src:
            F.why.setdefault(self.f['id'], (e['fn']['path'] if e.get('fn') else '?', e.get('sp')))
        if not e.get('fn'):
            ft = self.ev(e['fun'], ctl)
            ts = self.evs(e['args'], ctl)
            if any(ts):
                for c in self.clo_of(e['fun']):
                    for p in (F.p.fns[c].get('params') or []) if c in F.p.fns else []:
                        self.taint |= set(binds(p['p']))
            for a in e['args']:
                if is_mut_ty(a.get('ty')):
                    self.write(a, ctl or any(ts))
            return ft or any(ts) or src
        # a receiver first, so that closures see what they are applied to
        ts = []
        for a in e['args']:
            if a['k'] == 'Closure' or a['k'] == 'Borrow' and a['e']['k'] == 'Closure':
                ts.append(None)
            else:
                ts.append(self.ev(a, ctl))
        some = any(t for t in ts if t)
        for k, a in enumerate(e['args']):
            if ts[k] is None:
                if some:
                    for c in self.clo_of(a):
                        for p in (F.p.fns[c].get('params') or []) if c in F.p.fns else []:
                            self.taint |= set(binds(p['p']))
                ts[k] = self.ev(a, ctl or some)
        ids, ext = F.g.callee(e['fn'])
        if ext is not None and any(ext.startswith(x) for x in F.passive):
            return False
        if ids and ext is None:
            tk = frozenset(k for k, t in enumerate(ts) if t)
            r, mut = False, set()
            for i in ids:
                if F.p.fns[i].get('_raw') is None:
                    continue
                a, b = F.summary(i, tk)
                r = r or a
                mut |= b
            for k, a in enumerate(e['args']):
                if is_mut_ty(a.get('ty')) and (k in mut or ctl):
                    self.write(a, True)
            return r or src
        t = any(ts)
        for a in e['args']:
            if is_mut_ty(a.get('ty')):
                self.write(a, t or ctl)
        return t or src


def unit(e):
    t = e.get('ty')
    return t == ('tuple', ()) or t == ('prim', '!')
