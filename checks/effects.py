"""S05 (rest), S06, S07: what a fit can do besides computing - recursion, loops outside the solvers, output, ambient inputs."""
from api import *
from decide import *
from flow import Graph, Flow, nodes, ty_has, is_mut_ty
import solver as SV
import hyper as HY
import pylayer


def graph(api):
    g = getattr(api, '_graph', None)
    if g is None:
        g = api._graph = Graph(api.p)
    return g


def roots(api):
    """every way to start a fit: Fit::fit, the generic Solver, the two solver functions"""
    out = []
    for tr, names in (('Fit', ('fit',)), ('CDSolver', ('solve',)), ('BCDSolver', ('solve_multi_task',))):
        t = api.trait(tr)
        for i in api.p.trait_impls(t):
            out += [i['itemd'][n] for n in names if n in i['itemd']]
        out += [it[1] for it in api.p.traits[t]['items'] if it[2] and it[0] in names]
    for n in ('coordinate_descent', 'block_coordinate_descent'):
        out.append(api.fn(n)['id'])
    return out


def reached(api):
    r = getattr(api, '_reached', None)
    if r is None:
        r = api._reached = graph(api).reach(roots(api))
    return r


def core(api, fid):
    return api.p.fns[fid]['crate'] == 'sparseglm'


def where_of(f, n=None):
    sp = (n or {}).get('sp')
    return f['path'] + (' (%s:%s)' % (sp[0], sp[1]) if sp else '')


# ------------------------------------------------------------------ S07
AMBIENT = ('std::time', 'core::time::Instant', 'std::env', 'std::fs', 'std::net', 'std::process', 'std::thread', 'std::io::stdio::stdin',
           'std::io::stdin', 'rand::', 'rand_core', 'rand_chacha', 'ndarray_rand', 'getrandom', 'fastrand', 'std::sys', 'std::hash::random',
           'std::collections::hash::map::RandomState')
UNORDERED = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain', 'difference',
             'union', 'intersection', 'symmetric_difference', 'extract_if')
PASSIVE = ('std::io::stdio::_print', 'std::io::stdio::_eprint', 'core::panicking', 'std::panicking', 'std::rt')
CELLS = ('core::cell::', 'std::sync::', 'core::sync::atomic', 'std::cell', 'alloc::sync::Weak', 'once_cell::', 'std::thread::local', 'parking_lot')


def hashy(t):
    return ty_has(t, lambda a: a[0] == 'adt' and isinstance(a[1], str) and a[1].split('::')[-1] in ('HashMap', 'HashSet') and 'std::collections' in a[1])


def shared_statics(api):
    return {s['path']: s for s in api.p.statics if s.get('mutable') or not s.get('freeze', True)}


def source_of(api):
    st = shared_statics(api)
    g = graph(api)

    def src(e):
        k = e['k']
        if k == 'Call' and e.get('fn'):
            c = e['fn']
            for p in (c['path'], (c.get('res') or {}).get('path') or ''):
                if any(p.startswith(x) for x in AMBIENT):
                    return True
            if c.get('trait', '').startswith(('rand::', 'rand_core', 'ndarray_rand')):
                return True
            if c['name'] in UNORDERED and e['args'] and hashy(e['args'][0].get('ty')):
                return True
            return False
        if k == 'Static':
            return e.get('mutable') or e['path'] in st
        if k == 'ThreadLocal':
            return True
        if k == 'Const' and e.get('path') in st:
            return True
        if k == 'Cast':
            s = e['e'].get('ty')
            return bool(s and s[0] in ('ptr', 'fndef') and e.get('ty', ('',))[0] == 'prim')
        return False
    return src


def source_name(e):
    return e['fn']['path'] if e.get('fn') else e.get('path') or e['k']


def S07(api, rep):
    p, g = api.p, graph(api)
    # 1. no unsafe code in the native library
    n = 0
    for f in p.fns.values():
        if f['crate'] != 'sparseglm' or f.get('_raw') is None:
            continue
        n += 1
        rep.fns.add(f['path'])
        bad = []
        if f.get('unsafe') and not f.get('exp'):
            bad.append('unsafe fn')
        for x in nodes(p.body(f)):
            if x['k'] == 'Block' and (x.get('unsafe') or (x.get('unsafe_exp') and x.get('macro_local'))):
                bad.append('unsafe block at %s:%s' % tuple(x['sp']))
        if bad:
            rep.bad('unsafe:%s' % f['path'], where_of(f), bad[0])
    rep.ok('unsafe:library', 'sparseglm', '%d function bodies' % n, n)
    for i in p.impls:
        if i.get('unsafe'):
            rep.bad('unsafe:impl %s' % tname(i['self']), 'sparseglm', 'unsafe impl')
    # 2. nothing ambient flows into the result
    seen = reached(api)
    src = source_of(api)
    found = {}
    calls = 0
    for fid in seen:
        f = p.fns[fid]
        rep.fns.add(f['path'])
        for x in nodes(p.body(f)):
            calls += x['k'] == 'Call'
            if src(x):
                found.setdefault(fid, []).append(x)
    rep.count('call sites in the reachable call graph', calls)
    rep.count('functions reachable from a fit', len(seen))
    F = Flow(p, g, src, PASSIVE) if found else None
    for r in sorted(set(roots(api))):
        f = p.fns[r]
        key = 'ambient:%s' % f['path']
        if not found or not (set(g.reach([r])) & set(found)):
            rep.ok(key, f['path'], 'no ambient source in its call graph')
            continue
        t, mut = F.summary(r, frozenset())
        mine = [w for w in found if w in g.reach([r])]
        what = '; '.join('%s in %s' % (source_name(found[w][0]), where_of(p.fns[w], found[w][0])) for w in mine[:3])
        if not t:
            rep.ok(key, f['path'], 'ambient sources do not reach the result: %s' % what)
            continue
        hs = [x for w in mine for x in found[w]]
        soft = all(x['k'] == 'Call' and x['args'] and hashy(x['args'][0].get('ty')) for x in hs)
        if soft and any(order_free(p.fns[w], p) for w in mine):
            rep.und(key, f['path'], 'the order of a hash collection may or may not matter: %s' % what)
        else:
            rep.bad(key, f['path'], 'reaches the result: %s' % what)
    # 3. data and configuration cannot be written through a shared reference
    ts = ['DatasetBase', 'CSCArray', 'Solver'] + sorted(HY.EST)
    done = set()
    todo = []
    for n_ in ts:
        todo.append((n_, api.ty(n_)))
        if n_ in HY.EST:
            t = strip_(HY.params_type(api, n_))
            todo.append((tname(t), t))
    for n_, t in todo:
        cells = []
        scan_cells(api, t, cells, set())
        key = 'interior:%s' % n_
        if key in done:
            continue
        done.add(key)
        if not cells:
            rep.ok(key, n_, 'no interior mutability')
            continue
        w = writes_cell(api, seen)
        if w:
            rep.bad(key, n_, '%s is written during a fit: %s' % (cells[0], w))
        else:
            rep.ok(key, n_, 'interior mutability, never written during a fit')
    for r in sorted(set(roots(api))):
        f = p.fns[r]
        k0 = 0 if p.fns[r]['path'].split('::')[-1] in ('coordinate_descent', 'block_coordinate_descent') else None
        for k, t in enumerate(f['inputs']):
            t2 = t
            isds = ty_has(t2, lambda a: a[0] == 'adt' and a[1] == api.adt('DatasetBase'))
            if isds or (k == 0 and k0 is None):
                rep.check('shared:%s:%d' % (f['path'], k), f['path'], not (t[0] == 'ref' and t[1]) , 'takes %s by mutable reference' % tname(t))


def strip_(t):
    while t[0] == 'ref':
        t = t[2]
    return t


def order_free(f, p):
    """does the function sort, count or sum (so that the order may not matter)"""
    for x in nodes(p.body(f)):
        if x['k'] == 'Call' and x.get('fn') and (x['fn']['name'].startswith('sort') or x['fn']['name'] in ('sum', 'count', 'len', 'any', 'all', 'max', 'min', 'fold')):
            return True
        if x['k'] == 'Call' and ty_has(x.get('ty'), lambda a: a[0] == 'adt' and 'BTree' in str(a[1])):
            return True
    return False


def scan_cells(api, t, out, seen, via=''):
    if not isinstance(t, tuple) or t in seen:
        return
    seen.add(t)
    if t[0] == 'adt':
        if any(t[1].startswith(c) for c in CELLS):
            out.append('%s%s' % (via, t[1]))
            return
        a = api.p.adts.get(t[1])
        if a:
            for v in a['variants']:
                for fl in v['fields']:
                    scan_cells(api, fl['ty'], out, seen, via + '.' + str(fl['name']) + ': ')
        for x in t[2]:
            scan_cells(api, x, out, seen, via)
    elif t[0] in ('ref', 'tuple', 'slice', 'array', 'ptr'):
        for x in t[1:]:
            if isinstance(x, tuple):
                for y in (x if x and isinstance(x[0], tuple) else (x,)):
                    scan_cells(api, y, out, seen, via)


def writes_cell(api, seen):
    for fid in seen:
        f = api.p.fns[fid]
        for x in nodes(api.p.body(f)):
            if x['k'] == 'Call' and x.get('fn') and any(x['fn']['path'].startswith(c) for c in CELLS):
                if x['fn']['name'] in ('set', 'replace', 'borrow_mut', 'lock', 'write', 'store', 'swap', 'get_or_init', 'take', 'update', 'try_lock',
                                       'try_borrow_mut', 'get_or_insert_with', 'compare_exchange') or x['fn']['name'].startswith('fetch_'):
                    return '%s in %s' % (x['fn']['path'], where_of(f, x))
    return None


# ------------------------------------------------------------------ S06
def is_print(n):
    if n['k'] != 'Call' or not n.get('fn'):
        return False
    p = n['fn']['path']
    if p in ('std::io::stdio::_print', 'std::io::stdio::_eprint', 'std::io::_print', 'std::io::_eprint'):
        return True
    return (n['fn'].get('trait') or '').split('::')[-1] == 'Write' and bool(n['args']) and \
        ty_has(n['args'][0].get('ty'), lambda a: a[0] == 'adt' and a[1].split('::')[-1] in ('Stdout', 'Stderr', 'StdoutLock', 'StderrLock'))


def flip(t, v, b):
    return subst(t, {v: TRUE if b else FALSE})


def as_num(e):
    return sel(e, ONE, ZERO) if HY.is_bool(e) or e in (TRUE, FALSE) else e


def flip_val(v, s, b):
    """substitute inside any value"""
    if isinstance(v, E):
        return canon(flip(v, s, b))
    if isinstance(v, Arr):
        return Arr(tuple(flip_val(x, s, b) for x in v.shape), v.bvs, flip_val(v.body, s, b))
    if isinstance(v, Cond):
        c = canon(flip(v.c, s, b))
        if c is TRUE:
            return flip_val(v.a, s, b)
        if c is FALSE:
            return flip_val(v.b, s, b)
        return Cond(c, flip_val(v.a, s, b), flip_val(v.b, s, b))
    if isinstance(v, Adt):
        return Adt(v.path, v.variant, {k: flip_val(x, s, b) for k, x in v.fields.items()}, v.ty)
    if isinstance(v, Tup):
        return Tup([flip_val(x, s, b) for x in v.items])
    return v


def same_both(a, s, sp):
    """list of (part, Res): is the value the same for both values of the flag s"""
    if isinstance(a, E):
        x, y = as_num(canon(flip(a, s, True))), as_num(canon(flip(a, s, False)))
        return [('', Res('held', 1) if x is y else equal(x, y, sp))]
    return equal_val(flip_val(a, s, True), flip_val(a, s, False), sp)


def mentions(v, s):
    try:
        return s in {x for x in walk(reify(v)) if x.op == 'sym'}
    except Exception:
        return True


def S06_model(C, rep):
    M = C.M
    rep.count('loops in the value graph', len(M.I.loops))
    V = SV.VERB
    dep = SV.depends(M, M.result)
    key = '%s:result' % C.tag
    if any(x.op == 'top' for x in dep):
        rep.und(key, C.loc, 'unmodelled: %s' % (M.I.unknown[:2],))
    elif V not in dep:
        rep.ok(key, C.loc, 'nothing the coefficients are computed from mentions the flag', len(dep))
    else:
        sp = C.space()
        sp.scal[V] = [True, False]
        n = 0
        terms = [('the result', M.result)]
        for k, rec in enumerate(M.I.loops):
            live = [j for j, lf in enumerate(rec.leaves) if any(lf[x] is not None and (set(SV.leaf_syms(lf[x])) & dep) for x in ('phi', 'out'))]
            if not live:
                continue
            for x in rec.exits + rec.returns:
                terms.append(('an exit of loop %d' % k, x['c']))
                terms += [('a value at an exit of loop %d' % k, x['vals'][j]) for j in live if j < len(x['vals']) and x['vals'][j] is not None]
            if rec.n is not None:
                terms.append(('the trip count of loop %d' % k, rec.n))
            terms += [('the transfer of loop %d' % k, rec.leaves[j][x]) for j in live for x in ('init', 'step') if rec.leaves[j][x] is not None]
            terms += [('the condition of loop %d' % k, c) for c in rec.pc]
        for what, t in terms:
            if not mentions(t, V):
                continue
            n += 1
            for pth, r in same_both(C.nm(t), V, sp):
                if r.status == 'violated':
                    r.detail = '%s depends on the flag: %s' % (what, r.detail)
                rep.res('%s:%d%s' % (key, n, pth), C.loc, r)
        if not n:
            rep.ok(key, C.loc)
    printed(rep, C.tag, C.loc, M.I.effects, V, lambda c: SV.depends(M, c), C.space(), lambda c: C.nm(c),
            lambda c: SV.foreign_state(C, [c]))


def printed(rep, tag, loc, effects, V, deps, sp, nm=lambda c: c, foreign_=SV.state_syms):
    n = 0
    seen = set()
    sp = sp.with_(scal={**sp.scal, V: [False]})
    for e in effects:
        if e.kind != 'print':
            continue
        c = and_(*[x for x in e.pc])
        k = (e.site, canon(c))
        if k in seen:
            continue
        seen.add(k)
        n += 1
        key = '%s:print %s:%d' % (tag, (e.fn or '').split('::')[-1], n)
        where = '%s (%s:%s)' % ((e.fn or loc,) + tuple(e.site or ('?', 0)))
        off = canon(flip(c, V, False))
        if off is FALSE:
            rep.ok(key, where, 'under the flag')
            continue
        if V not in deps(c):
            rep.bad(key, where, 'prints whatever the flag says: under %s' % (show(c)[:200]))
            continue
        if canon(flip(c, V, True)) is FALSE:
            rep.bad(key, where, 'prints exactly when the flag is off: under %s' % show(c)[:200])
            continue
        try:
            on = nm(c)
            foreign = foreign_(on)
            bad, hit = SV.refute(sp, [on], FALSE, n=800)
            if foreign:
                # conditions on loop state that do not mention the flag: the site is taken to be reachable with them
                keep = [l for l in SV.conj(on) if mentions(l, V) or not foreign_(l)]
                if not any(mentions(l, V) and foreign_(l) for l in keep):
                    bad, hit = SV.refute(sp, keep, FALSE, n=800)
                    foreign = foreign if bad is None else None
        except Exception as ex:
            bad, foreign = None, ex
        if bad is not None and not foreign:
            rep.bad(key, where, 'prints with the flag off: under %s (%s)' % (show(c)[:200], bad))
        elif bad is None and not foreign and contradictory(on, V):
            rep.ok(key, where, 'needs the flag')
        else:
            rep.und(key, where, 'prints under %s' % show(c)[:200])
    rep.count('output sites', n)


def contradictory(c, V):
    return all(any(l is V for l in SV.conj(d)) for d in SV.disj(c))


def S06_fit(api, rep, seen):
    V = HY.rs('verbose')

    def one(key, make):
        r, where = make()
        rep.analysed(r.I)
        seen.update(r.I.inlined)
        sp = HY.hspace([V] + r.leaves)
        # solver calls that differ in the flag only give the same coefficients
        by = {}
        ren = {}
        for path, pc, v, s in r.calls:
            k = (path,) + tuple(canon(reify(x, r.I)) for i, x in enumerate(v) if i != 9)
            if k in by:
                ren[s] = by[k]
            by.setdefault(k, s)
        for n, (path, pc, v, s) in enumerate(r.calls):
            for i, x in enumerate(v):
                if i == 9 or not mentions(x, V):
                    continue
                for p_, q in same_both(r.I.force(x), V, sp.with_(cons=pc)):
                    rep.res('%s:call %d argument %d%s' % (key, n, i, p_), where, q)
        out = r.out
        if not mentions(out, V):
            rep.ok(key + ':result', where)
        else:
            o = out if not ren else subst_val(out, ren)
            for p_, q in same_both(r.I.force(o), V, sp):
                rep.res(key + ':result' + p_, where, q)
        printed(rep, key, where, r.I.effects, V, lambda c: {x for x in walk(reify(c)) if x.op == 'sym'}, sp)
    for est in HY.EST:
        ty = strip_(HY.params_type(api, est))
        st = HY.setters(api, ty)
        if 'verbose' not in st:
            raise Missing('builder %s::verbose' % est)
        for dm in ('dense', 'csc'):
            def make(est=est, dm=dm, st=st):
                r = HY.fit_once(api, est, dm, lambda r_, p: api.call(r_.I, st['verbose'], [p, V]))
                return r, r.f['path']
            one('%s/%s' % (est, dm), make)
    ty = api.ty('Solver')
    st = HY.setters(api, ty)
    for tr, m in (('CDSolver', 'solve'), ('BCDSolver', 'solve_multi_task')):
        imp = [i for i in api.p.trait_impls(api.trait(tr)) if i['self'][0] == 'adt' and i['self'][1] == ty[1]]
        if len(imp) != 1:
            continue
        f = api.p.fns[imp[0]['itemd'][m]]

        def make(f=f):
            r = HY.Run(api)
            r.leaves = []
            p = api.call(r.I, st['verbose'], [HY.build(api, r.I, ty, 'p', r.leaves), V])
            r.ds = r.dataset(sym('design_matrix', 'O'), sym('targets', 'O'))
            df = MutRef(r.I.new_cell(sym('datafit', 'O'), 'datafit'))
            r.out = api.call(r.I, (f, {}), [p, r.ds, df, sym('penalty', 'O')])
            return r, f['path']
        one('Solver/%s' % m, make)


def subst_val(v, ren):
    if isinstance(v, E):
        return replace(v, ren)
    if isinstance(v, Arr):
        return Arr(v.shape, v.bvs, subst_val(v.body, ren))
    if isinstance(v, Cond):
        return Cond(v.c, subst_val(v.a, ren), subst_val(v.b, ren))
    if isinstance(v, Adt):
        return Adt(v.path, v.variant, {k: subst_val(x, ren) for k, x in v.fields.items()}, v.ty)
    if isinstance(v, Tup):
        return Tup([subst_val(x, ren) for x in v.items])
    return v


def has_flag(api, f):
    """a boolean among the parameters, or in what they point to"""
    seen = set()

    def go(t):
        if not isinstance(t, tuple) or not t or t in seen:
            return False
        seen.add(t)
        if t == ('prim', 'bool') or t[0] == 'other':
            return True
        if t[0] == 'closure':
            return True
        if t[0] == 'adt':
            a = api.p.adts.get(t[1])
            return (bool(a) and any(go(fl['ty']) for v in a['variants'] for fl in v['fields'])) or any(go(x) for x in t[2])
        return any(go(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else any(go(y) for y in x) if isinstance(x, tuple) else False for x in t[1:])
    if any(go(t) for t in f['inputs'] or ()):
        return True
    for x in nodes(api.p.body(f)):
        if x['k'] in ('Static', 'ThreadLocal'):
            return True
    return '{closure' in f['path']


def S06(api, rep):
    inl = set()

    def f(C, rep):
        inl.update(C.M.I.inlined)
        S06_model(C, rep)
    SV.both(api, rep, f)
    S06_fit(api, rep, inl)
    pylayer.S06_python(api, rep)
    g, seen = graph(api), reached(api)
    for fid in seen:
        fn = api.p.fns[fid]
        rep.fns.add(fn['path'])
        ps = [n for n in nodes(api.p.body(fn)) if is_print(n)]
        if not ps or fn['path'] in inl or fn.get('kind') == 'Closure':
            if ps and fn.get('kind') == 'Closure' and not any(fn['path'].startswith(i + '::') for i in inl):
                rep.und('output:%s' % fn['path'], where_of(fn, ps[0]), 'output from a closure outside the analysed functions')
            continue
        flagged = False
        x = fid
        while x is not None and api.p.fns[x]['path'] not in inl:
            flagged = flagged or has_flag(api, api.p.fns[x])
            x = seen.get(x)
        if flagged:
            rep.und('output:%s' % fn['path'], where_of(fn, ps[0]), 'output under conditions not analysed')
        else:
            rep.bad('output:%s' % fn['path'], where_of(fn, ps[0]), 'writes output and has no access to the verbosity flag: %s' % g.chain(seen, fid)[:300])
    rep.ok('output:call graph', 'sparseglm', '%d functions' % len(seen), len(seen))


# ------------------------------------------------------------------ S05: the rest of the call graph
def S05_graph(api, rep):
    p, g = api.p, graph(api)
    seen = reached(api)
    direct = {}
    for fid in seen:
        calls, clos = g.of(fid)
        d = []
        for ids, ext, n in calls:
            if n['k'] == 'Call' and ids and ext is None:
                d += [(i, n) for i in ids if len(ids) == 1]
        direct[fid] = d
    closed = {fid: set(g.reach([fid])) for fid in seen}
    n = 0
    for fid in sorted(seen):
        f = p.fns[fid]
        n += 1
        rep.fns.add(f['path'])
        rec = [(i, x) for i, x in direct[fid] if fid in closed.get(i, ())]
        for i, x in rec:
            if i != fid:
                rep.und('recursion:%s' % f['path'], where_of(f, x), 'mutual recursion through %s' % p.fns[i]['path'])
                continue
            if pure_same(p, f, x):
                rep.bad('recursion:%s' % f['path'], where_of(f, x), 'calls itself with the arguments it was called with')
            else:
                rep.und('recursion:%s' % f['path'], where_of(f, x), 'recursive call')
    rep.ok('recursion:call graph', 'sparseglm', '%d functions' % n, n)
    # loops outside the two solver functions
    m = 0
    for fid in sorted(seen):
        f = p.fns[fid]
        if not core(api, fid):
            continue
        for lp, kind in open_loops(p.body(f)):
            m += 1
            if f['path'] in SOLVED(api):
                continue
            key = 'loop:%s:%s' % (f['path'], (lp.get('sp') or ['', 0])[1])
            v = loop_counter(lp)
            if v == 'none':
                rep.bad(key, where_of(f, lp), 'the loop has no exit that counts or consumes anything: only %s decide when it ends' % 'floating-point comparisons')
            elif v == 'ok':
                rep.ok(key, where_of(f, lp))
            else:
                rep.und(key, where_of(f, lp), 'no bound recognised')
    rep.count('loops without a range', m)


def SOLVED(api):
    """functions whose loops are already analysed as part of the solver nests"""
    r = getattr(api, '_solved', None)
    if r is None:
        r = set()
        for multi in (False, True):
            try:
                M = SV.Model(api, multi)
                r |= set(M.I.inlined)
            except Exception:
                pass
        api._solved = r
    return r


def pure_same(p, f, call):
    """every argument is the parameter of the same position, which is never written and holds no mutable reference"""
    if any(is_mut_ty(t) for t in f['inputs']) or len(call['args']) != len(f['params']):
        return False
    from flow import binds
    written = set()
    for n in nodes(p.body(f)):
        if n['k'] in ('Assign', 'AssignOp'):
            written |= {v['id'] for v in nodes(n['l']) if v['k'] == 'Var'}
        if n['k'] in ('Borrow', 'Reborrow') and n.get('mut'):
            written |= {v['id'] for v in nodes(n['e']) if v['k'] == 'Var'}
    for a, q in zip(call['args'], f['params']):
        vs = binds(q['p'])
        while a['k'] in ('Borrow', 'Deref', 'Reborrow', 'Use', 'PtrCoerce'):
            a = a['e']
        if a['k'] == 'Lit':
            return False
        if a['k'] != 'Var' or len(vs) != 1 or a['id'] != vs[0] or a['id'] in written:
            return False
    return True


ENDLESS = ('RangeFrom', 'Repeat', 'Cycle', 'RepeatWith', 'Successors', 'FromFn')


def open_loops(body):
    """loops that no finite iterator drives"""
    def go(x, driver):
        if isinstance(x, list):
            for y in x:
                yield from go(y, None)
            return
        if not isinstance(x, dict):
            return
        if x.get('k') == 'Match' and str(x.get('src', '')).startswith('ForLoop') and len(x['arms']) == 1:
            t = x['e'].get('ty')
            yield from go(x['e'], None)
            yield from go(x['arms'][0]['b'], t)
            return
        if x.get('k') == 'Loop':
            if driver is None:
                yield x, 'while'
            elif endless(driver):
                yield x, 'endless'
            yield from go(x['b'], None)
            return
        if x.get('k') in ('Block',) and driver is not None:
            for s in x['ss']:
                yield from go(s, driver if s.get('e') is not None else None)
            yield from go(x.get('e'), driver)
            return
        for k, v in x.items():
            if k in ('ty', 'sp', 'fn'):
                continue
            if isinstance(v, (dict, list)):
                yield from go(v, driver if k in ('e',) and x.get('k') in ('E', 'L', 'NeverToAny', 'Use', 'Block') else None)
    yield from go(body, None)


def endless(t):
    if not (isinstance(t, tuple) and t and t[0] == 'adt'):
        return False
    n = t[1].split('::')[-1]
    if n in ENDLESS:
        return True
    if n in ('Enumerate', 'Map', 'Inspect', 'Rev', 'Copied', 'Cloned', 'Peekable', 'Filter', 'FilterMap', 'Skip', 'StepBy') and t[2]:
        return endless(t[2][0])
    return False


def float_ty(t):
    return t is not None and (t[0] == 'param' or t == ('prim', 'f64') or t == ('prim', 'f32'))


def loop_counter(lp):
    """'none': every exit is decided by floating-point comparisons of scalars alone; 'ok': an integer counter moves to a constant end; else None"""
    conds = []

    def go(x, under):
        if isinstance(x, list):
            for y in x:
                go(y, under)
            return
        if not isinstance(x, dict):
            return
        k = x.get('k')
        if k in ('Break', 'Return'):
            conds.append(list(under))
        if k == 'Closure':
            return
        if k == 'If':
            go(x['c'], under)
            go(x['t'], under + [x['c']])
            go(x['f'], under + [x['c']])
            return
        if k == 'Match':
            go(x['e'], under)
            for a in x['arms']:
                go(a['g'], under + [x['e']])
                go(a['b'], under + [x['e']] + ([a['g']] if a['g'] else []))
            return
        for kk, v in x.items():
            if kk not in ('ty', 'sp', 'fn'):
                go(v, under)
    go(lp['b'], [])
    if not conds:
        return 'none'
    for cs in conds:
        if not cs:
            return None
        if not any(all(only_floats(c) for c in cs) for _ in (0,)):
            return None
    return 'none'


def only_floats(c):
    """a comparison (or combination) over scalar floats: no integer, boolean variable, option, iterator or call that could count"""
    for n in nodes(c):
        k = n['k']
        if k in ('Var', 'Field', 'Index', 'Deref', 'Call'):
            t = n.get('ty')
            u = t
            while u and u[0] == 'ref':
                u = u[2]
            if float_ty(u):
                continue
            if k in ('Call',) and u == ('prim', 'bool') and n.get('fn') and n['fn']['name'] in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'is_nan', 'is_finite'):
                if all(float_ty(strip_(a.get('ty'))) for a in n['args'] if a.get('ty')):
                    continue
            return False
        if k in ('Let', 'Match', 'Loop'):
            return False
    return True
