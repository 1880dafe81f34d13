"""Closing a loop: closed forms for the state leaves where the recurrence is recognised, a LoopRec otherwise."""
from expr import *
from values import *


class Leaf:
    def __init__(self, ref, phi, init, name):
        self.ref, self.phi, self.init, self.name = ref, phi, init, name
        self.step = None      # value after one normal iteration
        self.at = None        # python function q -> value at the start of iteration q
        self.syms = phi_syms(phi)
        self.kind = None


def phi_syms(phi):
    """symbols standing for a phi value"""
    out = set()
    if isinstance(phi, E):
        out |= {s for s in free(phi) if s.op == 'sym'}
    elif isinstance(phi, Arr):
        b = phi
        while isinstance(b, Arr):
            out |= {x for x in b.shape if x.op == 'sym' and x.args[0].startswith('phi:')}
            b = b.body
        if isinstance(b, E):
            if b.op == 'elem' and b.args[0].op == 'sym':
                out.add(b.args[0])
            elif b.op == 'sym':
                out.add(b)
    return out


def vfree(v):
    """free symbols of a value"""
    if isinstance(v, E):
        return free(v)
    out = set()
    if isinstance(v, Arr):
        for s in v.shape:
            out |= free(s)
        out |= vfree(v.body) - set(v.bvs)
    elif isinstance(v, Tup):
        for x in v.items:
            out |= vfree(x)
    elif isinstance(v, Adt):
        for x in v.fields.values():
            out |= vfree(x)
    elif isinstance(v, Cond):
        out |= free(v.c) | vfree(v.a) | vfree(v.b)
    elif isinstance(v, Seq):
        out |= vfree(v.value) | free(v.cond)
        for b, n in v.gens:
            out |= free(n)
    elif isinstance(v, MutRef):
        for p in v.path:
            if p[0] == 'i':
                for x in p[1]:
                    out |= free(x)
    return out


def delta(s, p):
    """s - p if s is p plus something free of p, distributing over conditionals"""
    if s is p:
        return ZERO
    if s.op == 'sel':
        if p in free(s.args[0]):
            return None
        a, b = delta(s.args[1], p), delta(s.args[2], p)
        if a is None or b is None:
            return None
        return sel(s.args[0], a, b)
    if p not in free(s):
        return None
    d, c = lin(s)
    if d.get(p) != 1:
        # p hidden inside a nested conditional: p' = k + sel(c, p + a, p + b)
        hid = [m for m in d if m is not p and p in free(m)]
        if len(hid) == 1 and p not in d and d[hid[0]] == 1 and hid[0].op == 'sel':
            r = delta(hid[0], p)
            if r is None:
                return None
            rest = dict(d)
            del rest[hid[0]]
            return add(unlin(rest, c), r)
        return None
    rest = dict(d)
    del rest[p]
    r = unlin(rest, c)
    if p in free(r):
        return None
    return r


def factor(s, p):
    """s / p for s = p * f"""
    if s is p:
        return ONE
    if s.op == 'sel' and p not in free(s.args[0]):
        a, b = factor(s.args[1], p), factor(s.args[2], p)
        return None if a is None or b is None else sel(s.args[0], a, b)
    if s.op == 'mul' and s.args.count(p) == 1:
        r = mul(*[x for x in s.args if x is not p])
        return r if p not in free(r) else None
    if s.op == 'div' and p not in free(s.args[1]):
        a = factor(s.args[0], p)
        return None if a is None else div(a, s.args[1])
    return None


def as_max(s, p):
    """s = max(p, e) -> ('maxr', e)"""
    if s is p:
        return ('id', None)
    if s.op in ('max', 'min', 'imax', 'imin'):
        a, b = s.args[0], s.args[1]
        for x, y in ((a, b), (b, a)):
            if x is p and p not in free(y):
                return ({'max': 'maxr', 'imax': 'maxr', 'min': 'minr', 'imin': 'minr'}[s.op], y)
        for x, y in ((a, b), (b, a)):
            if p not in free(y):
                r = as_max(x, p)
                if r and r[0] == {'max': 'maxr', 'imax': 'maxr', 'min': 'minr', 'imin': 'minr'}[s.op]:
                    return (r[0], (fmax if r[0] == 'maxr' else fmin)(r[1], y))
        return None
    if s.op == 'sel':
        c, a, b = s.args
        neg_ = False
        if c.op in ('flt', 'fle', 'lt'):
            x, y = c.args
            for (u, v, flip) in ((x, y, False), (y, x, True)):
                if u is p and p not in free(v):
                    # c: p < v  (flip: v < p)
                    if a is v and b is p:
                        return ('maxr' if not flip else 'minr', v)
                    if a is p and b is v:
                        return ('minr' if not flip else 'maxr', v)
        if p not in free(c):
            ra, rb = as_max(a, p), as_max(b, p)
            if ra and rb:
                kinds = {r[0] for r in (ra, rb)} - {'id'}
                if len(kinds) == 1:
                    k = kinds.pop()
                    nul = NINF if k == 'maxr' else INF
                    return (k, sel(c, ra[1] if ra[1] is not None else nul, rb[1] if rb[1] is not None else nul))
    return None


def lastval(q, n, v, init):
    """value after n iterations when each iteration overwrites with v(q)"""
    if q not in free(v):
        return sel(ilt(ZERO, n), v, init)
    return sel(ilt(ZERO, n), subst(v, {q: sub(n, ONE)}), init)


def cond_last(q, n, c, v, init):
    """value after n iterations of: if c(q) then v(q) else keep"""
    if c is TRUE:
        return lastval(q, n, v, init)
    if q not in free(v):
        r = bvar(n, 'q')
        return sel(any_(r, n, subst(c, {q: r})), v, init)
    # c pins q
    cs = list(c.args) if c.op == 'and' else [c]
    for x in cs:
        if x.op == 'eq':
            for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                e = solve_for(q, a, b)
                if e is not None:
                    rest = and_(*[y for y in cs if y is not x])
                    inr = and_(ile(ZERO, e), ilt(e, n), subst(rest, {q: e}))
                    return sel(inr, subst(v, {q: e}), init)
    if c.op == 'or':
        e = pinned(q, [[x] for x in c.args])
        if e is not None:
            inr = and_(ile(ZERO, e), ilt(e, n), subst(c, {q: e}))
            return sel(inr, subst(v, {q: e}), init)
    r = bvar(n, 'q')
    return mk('scat', r, n, subst(c, {q: r}), subst(v, {q: r}), init)


def solve_scalar(q, leaf):
    """closed form of a scalar leaf; sets leaf.at"""
    p, s, init = leaf.phi, leaf.step, leaf.init
    if not isinstance(s, E) or not isinstance(init, E):
        return False
    if s is p:
        leaf.at, leaf.kind = (lambda k: init), 'const'
        return True
    if p not in free(s):
        leaf.at, leaf.kind = (lambda k: lastval(q, k, s, init)), 'last'
        return True
    d = delta(s, p)
    if d is not None:
        def at(k):
            if d is ZERO:
                return init
            if q not in free(d):
                return add(init, mul(k, d))
            r = bvar(k, 'q')
            return add(init, sum_(r, k, subst(d, {q: r})))
        leaf.at, leaf.kind = at, 'sum'
        return True
    m = as_max(s, p)
    if m is not None:
        def at(k):
            r = bvar(k, 'q')
            return red(m[0], r, k, subst(m[1], {q: r}), init)
        leaf.at, leaf.kind = at, m[0]
        return True
    # or / and accumulators
    if s.op == 'or' and p in s.args:
        c = or_(*[x for x in s.args if x is not p])
        if p not in free(c):
            def at(k):
                r = bvar(k, 'q')
                return or_(init, any_(r, k, subst(c, {q: r})))
            leaf.at, leaf.kind = at, 'or'
            return True
    if s.op == 'and' and p in s.args:
        c = and_(*[x for x in s.args if x is not p])
        if p not in free(c):
            def at(k):
                r = bvar(k, 'q')
                return and_(init, not_(any_(r, k, not_(subst(c, {q: r})))))
            leaf.at, leaf.kind = at, 'and'
            return True
    # conditional overwrite
    o = overwrite(s, p)
    if o is not None:
        c, v = o
        leaf.at, leaf.kind = (lambda k: cond_last(q, k, c, v, init)), 'cond'
        return True
    f = factor(s, p)
    if f is not None:
        def at(k):
            if q not in free(f) and is_num(k):
                return mul(init, *([f] * int(val(k))))
            r = bvar(k, 'q')
            return mul(init, red('prod', r, k, subst(f, {q: r}), ONE))
        leaf.at, leaf.kind = at, 'prod'
        return True
    return False


def overwrite(s, p):
    """s as 'if c then v else p' with c, v free of p -> (c, v)"""
    if s is p:
        return (FALSE, ZERO)
    if p not in free(s):
        return (TRUE, s)
    if s.op == 'sel' and p not in free(s.args[0]):
        a, b = overwrite(s.args[1], p), overwrite(s.args[2], p)
        if a is None or b is None:
            return None
        c = s.args[0]
        if a[0] is FALSE:
            return (and_(not_(c), b[0]), b[1])
        if b[0] is FALSE:
            return (and_(c, a[0]), a[1])
        return (sel(c, a[0], b[0]), sel(c, a[1], b[1]))
    return None


def pin(e, P, bvs):
    """under a condition b == i, a read of P at i is a read of P at b"""
    if P not in free(e):
        return e
    if e.op == 'sel':
        c, a, b = e.args
        eqs = {}
        for x in (c.args if c.op == 'and' else (c,)):
            if x.op == 'eq':
                u, v = x.args
                if u in bvs and v not in bvs:
                    eqs[u] = v
                elif v in bvs and u not in bvs:
                    eqs[v] = u
        if eqs:
            tgt = [eqs.get(v, v) for v in bvs]
            a = replace(a, {elem(P, *tgt): elem(P, *bvs)})
        return sel(c, pin(a, P, bvs), pin(b, P, bvs))
    return e


def elems_of(e, P):
    out, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'elem' and x.args[0] is P:
            out.add(x)
        for y in x.args:
            if isinstance(y, E):
                stack.append(y)
            elif isinstance(y, tuple):
                stack.extend(z for z in y if isinstance(z, E))
    return out


def write_conds(body, X, P):
    """path conditions under which the element's new value is not its old value X (conditions reading P or X are dropped)"""
    conds = []

    def walk(e, pc):
        if e is X:
            return
        if e.op == 'sel':
            if {X, P} & free(e.args[0]):
                walk(e.args[1], pc)
                walk(e.args[2], pc)
            else:
                walk(e.args[1], pc + [e.args[0]])
                walk(e.args[2], pc + [not_(e.args[0])])
            return
        if e.op == 'add' and X in e.args:
            # X + (c ? d : 0)
            rest = [a for a in e.args if a is not X]
            if len(rest) == 1 and rest[0].op == 'sel' and ZERO in rest[0].args[1:] and not ({X, P} & free(rest[0].args[0])):
                c = rest[0].args[0]
                conds.append(pc + [c if rest[0].args[2] is ZERO else not_(c)])
                return
        conds.append(pc)
    walk(body, [])
    return conds


def pinned(q, conds, ks=None):
    """the iteration number every write of an element is pinned to (an expression in the element's index)"""
    e0 = None
    for pc in conds:
        hit = None
        for pp in pc:
            for c in (pp.args if pp.op == 'and' else (pp,)):
                if c.op == 'eq':
                    for u, v in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                        e = solve_for(q, u, v)
                        if e is not None and q not in free(e) and (e0 is None or e is e0):
                            hit = e
                            break
                if hit is not None:
                    break
            if hit is not None:
                break
        if hit is None:
            return None
        e0 = hit
    return e0


def untouched(q, P, bvs, body, X, leaf):
    """replace reads of other elements of P by their initial value, if the loop has not written them when it reads them:
    either no iteration writes them, or every write and every such read is in the column of the running iteration"""
    reads = elems_of(body, P)
    # conditions under which the element at bvs is written
    conds = write_conds(body, X, P)
    if not conds:
        return None
    m = {}
    for rd in reads:
        idx = rd.args[1:]
        # (a) never written
        sb = dict(zip(bvs, idx))
        r = bvar(BV_N.get(q), 'q')
        sb[q] = r      # any iteration
        if all(subst(and_(*pc), sb) is FALSE for pc in conds):
            m[rd] = leaf.init.at(*idx)
            continue
        # (b) column of the running iteration
        ok = False
        for d, bv in enumerate(bvs):
            e = idx[d]
            if q not in free(e) or solve_for(q, bv, e) is None:
                continue
            if all(any(c.op == 'eq' and ((c.args[0] is bv and c.args[1] is e) or (c.args[1] is bv and c.args[0] is e) or
                                         ieq(bv, e) is c)
                       for pp in pc for c in (pp.args if pp.op == 'and' else (pp,))) for pc in conds):
                ok = True
                break
        if not ok:
            return None
        m[rd] = leaf.init.at(*idx)
    out = replace(body, m)
    return out


def solve_array(q, leaf):
    phi, step, init = leaf.phi, leaf.step, leaf.init
    if not (isinstance(phi, Arr) and isinstance(step, Arr) and isinstance(init, Arr)):
        return False
    P = None
    for s in leaf.syms:
        if s.args[1] == 'A':
            P = s
    if P is None:
        return False
    shsyms = [s for s in phi.shape if s.op == 'sym' and s.args[0].startswith('phi:')]
    if shsyms:
        return solve_push(q, leaf, P, shsyms)
    if not same_shape(phi, step):
        return False
    if isinstance(step.body, Arr) or isinstance(step.body, (Tup, Adt, Cond)):
        return False
    if not isinstance(step.body, E) or not isinstance(init.body, E):
        return False
    bvs = step.bvs
    body = step.body
    if body.op == 'top':
        return False
    x = elem(P, *bvs)
    X = fresh('x', 'R')
    b2 = replace(pin(body, P, bvs), {x: X})
    shp = step.shape
    if P in free(b2):
        # other elements of P are read: fine if they still hold their initial value when they are read
        r = untouched(q, P, bvs, b2, X, leaf)
        if r is None:
            return False
        b2 = r
    if X not in free(b2):
        f = lambda k, *i: lastval(q, k, subst(body, dict(zip(bvs, i))), init.at(*i))
        leaf.at, leaf.kind = (lambda k: mkarr(shp, lambda *i: f(k, *i))), 'last'
        return True
    d = delta(b2, X)
    if d is not None:
        def at(k):
            def el(*i):
                dd = subst(d, dict(zip(bvs, i)))
                r = bvar(k, 'q')
                return add(init.at(*i), sum_(r, k, subst(dd, {q: r})))
            return mkarr(shp, el)
        leaf.at, leaf.kind = at, 'sum'
        return True
    o = overwrite(b2, X)
    if o is not None:
        def at(k):
            def el(*i):
                m = dict(zip(bvs, i))
                return cond_last(q, k, subst(o[0], m), subst(o[1], m), init.at(*i))
            return mkarr(shp, el)
        leaf.at, leaf.kind = at, 'cond'
        return True
    # in-place update of each element in at most one iteration
    conds = write_conds(b2, X, P)
    e = pinned(q, conds) if conds else None
    if e is not None:
        def at(k):
            def el(*i):
                m = dict(zip(bvs, i))
                ee = subst(e, m)
                m[q] = ee
                m[X] = init.at(*i)
                inr = and_(ile(ZERO, ee), ilt(ee, k))
                return sel(inr, subst(b2, m), init.at(*i))
            return mkarr(shp, el)
        leaf.at, leaf.kind = at, 'once'
        return True
    m = as_max(b2, X)
    if m is not None and m[0] != 'id':
        def at(k):
            def el(*i):
                mm = dict(zip(bvs, i))
                r = bvar(k, 'q')
                mm[q] = r
                return red(m[0], r, k, subst(m[1], mm), init.at(*i))
            return mkarr(shp, el)
        leaf.at, leaf.kind = at, m[0]
        return True
    return False


def solve_push(q, leaf, P, shsyms):
    phi, step, init = leaf.phi, leaf.step, leaf.init
    if phi.ndim != 1 or len(shsyms) != 1:
        return False
    pn = shsyms[0]
    if step.shape[0] is pn:
        return False
    inc = sub(step.shape[0], pn)
    if inc is not ONE:
        return False
    b = step.bvs[0]
    body = step.body
    v = None
    if isinstance(body, Cond) or (isinstance(body, E) and body.op == 'sel'):
        c, x, y = (body.c, body.a, body.b) if isinstance(body, Cond) else body.args
        if c is ieq(b, pn):
            v = x
    if v is None:
        # merged structured value: evaluate at b = pn
        v = vsubst(body, {b: pn})
    if P in vfree(v):
        return False
    m0 = init.shape[0]
    # the pushed value in terms of the element index
    def at(k):
        n = add(m0, k)

        def el(i):
            qi = sub(i, m0)
            vv = vsubst(v, {q: qi, pn: i, b: i})
            return vv if m0 is ZERO else merge(ilt(i, m0), init.at(i), vv)
        return mkarr([n], el)
    leaf.at, leaf.kind = at, 'push'
    leaf.pn = (pn, lambda k: add(m0, k))
    return True


def phi_map(leaf, k):
    """substitution replacing the phi symbols of a solved leaf by its value at iteration k"""
    v = leaf.at(k)
    m = {}
    phi = leaf.phi
    if isinstance(phi, E):
        if isinstance(v, E):
            m[phi] = v
        return m
    if isinstance(phi, Arr):
        P = [s for s in leaf.syms if s.args[1] == 'A']
        if P:
            if isinstance(phi.body, Arr):
                return m
            m[P[0]] = reify(v)
        if getattr(leaf, 'pn', None):
            m[leaf.pn[0]] = leaf.pn[1](k)
    return m


def conj(pc, L):
    return and_(*pc[L:])


def strip_unchanged(I, start, st, refs):
    return all(I.read_path(st[r.cell], r.path) is I.read_path(start[r.cell], r.path) or
               same_val(I.read_path(st[r.cell], r.path), I.read_path(start[r.cell], r.path)) for r in refs)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return same_shape(a, b) and isinstance(a.body, E) and isinstance(b.body, E) and a.body is b.at(*a.bvs)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Adt) and isinstance(b, Adt) and a.variant == b.variant:
        return set(a.fields) == set(b.fields) and all(same_val(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, MutRef) and isinstance(b, MutRef):
        return a == b
    return False


def close(I, q, n, niter, phis, normal, breaks, rets, start, st0, pc0, L, cells0, site, nef, nlo, mark=1 << 60):
    leaves = []
    for ref, (phi, init, name) in phis.items():
        lf = Leaf(ref, phi, init, name)
        if normal is not None:
            lf.step = I.read_path(normal[0][ref.cell], ref.path)
        leaves.append(lf)

    # cells of the enclosing state changed only on exit paths are read from the exit states directly
    # ---- solve leaves (dependency order)
    solved, todo = [], list(leaves)
    sub_ = {}
    if normal is not None:
        progress = True
        while progress and todo:
            progress = False
            open_syms = set()
            for lf in todo:
                open_syms |= lf.syms
            for lf in list(todo):
                s = vsubst(lf.step, sub_) if sub_ else lf.step
                others = open_syms - lf.syms
                fr_ = vfree(s)
                if fr_ & others:
                    continue
                if local_syms(fr_, mark) and not same_val(s, lf.phi):
                    continue
                old = lf.step
                lf.step = s
                ok = solve_scalar(q, lf) if isinstance(lf.phi, E) and lf.phi.op == 'sym' else solve_array(q, lf)
                if not ok:
                    lf.step = old
                    continue
                todo.remove(lf)
                solved.append(lf)
                sub_.update(phi_map(lf, q))
                # close the substitution
                for k in list(sub_):
                    sub_[k] = subst(sub_[k], {a: b for a, b in sub_.items() if a is not k}) if isinstance(sub_[k], E) else sub_[k]
                progress = True
                break

    def S(e):
        return subst(e, sub_) if sub_ else e

    def SV(v):
        return vsubst(v, sub_) if sub_ else v

    # ---- trip count of while loops
    exits = [(conj(pc, L), st, v) for pc, st, v in breaks]
    frets = [(conj(pc, L), st, v) for pc, st, v in rets]
    head = None
    counter = n
    if n is None:
        for k, (c, st, v) in enumerate(exits):
            cnt = trip_count(S(c), q, sub_)
            if cnt is not None and not local_syms(free(cnt), mark) and strip_unchanged(I, start, st, [lf.ref for lf in leaves]) and \
                    all(st.get(cc) is start.get(cc) for cc in cells0 if not any(lf.ref.cell == cc for lf in leaves)):
                head = k
                counter = cnt
                break
        if head is not None:
            hc = exits[head][0]
            exits.pop(head)
            # the head condition holds on every other path
            ren = {q: q}
            BV_N[q] = counter
            sub_[niter] = counter
            frets = [(drop(c, not_(hc)), st, v) for c, st, v in frets]
            exits = [(drop(c, not_(hc)), st, v) for c, st, v in exits]

    def finish_effects(extra=None):
        if not sub_:
            return
        for e in I.effects[nef:]:
            e.pc = e.pc[:L] + [S(c) for c in e.pc[L:]]
            e.data = subst_data(e.data, sub_)
        for lr in I.loops[nlo:]:
            subst_loop(lr, sub_)

    solved_all = not todo and normal is not None
    if counter is not None and solved_all and not exits and not frets:
        finish_effects()
        st = dict(st0)
        for lf in solved:
            write_leaf(I, st, lf.ref, lf.at(counter))
        I.st, I.pc = st, pc0
        I.loop_log.append(('closed', site, I.frames[-1].fn['path'], counter, [(lf.name, lf.kind) for lf in solved]))
        return UNIT
    if counter is not None and (solved_all or normal is None) and \
            all(not has_hidden(S(c), todo, mark) for c, _, _ in exits + frets):
        # search loop: leave at the first iteration where an exit condition holds
        finish_effects()
        allx = [(S(c), st, v, 'b') for c, st, v in exits] + [(S(c), st, v, 'r') for c, st, v in frets]
        xc = or_(*[c for c, _, _, _ in allx]) if normal is not None else TRUE
        r = bvar(counter, 'q')
        xr = subst(xc, {q: r})
        found = any_(r, counter, xr)
        if q in free(xc):
            F = mk('first', r, counter, xr)
        else:
            F = ZERO
        # normal completion
        base = dict(st0)
        for lf in solved:
            write_leaf(I, base, lf.ref, lf.at(counter))
        # exit states
        fsub = dict(sub_)
        out_rets = []
        cur_st, cur_c = None, FALSE
        retc = FALSE
        bval = UNIT
        changed_cells = [c for c in cells0]
        for c, st, v, k in reversed(allx):
            stx = {}
            for cc in cells0:
                if st.get(cc) is start.get(cc) and not any(lf.ref.cell == cc for lf in leaves):
                    stx[cc] = st0[cc]
                else:
                    stx[cc] = vsubst(vsubst(st[cc], sub_), {q: F})
            cF = subst(c, {q: F})
            vF = vsubst(vsubst(v, sub_), {q: F})
            if k == 'r':
                out_rets.append((cF, stx, vF))
                retc = or_(retc, cF)
            else:
                if cur_st is None:
                    cur_st, bval = stx, vF
                else:
                    cur_st = I.merge_state(cF, stx, cur_st)
                    bval = merge(cF, vF, bval)
        for cF, stx, vF in reversed(out_rets):
            I.frames[-1].returns.append((pc0 + [and_(found, cF)] if len(allx) > 1 else pc0 + [found], stx, vF))
        if normal is None and not [1 for x in allx if x[3] == 'b']:
            # every iteration returns
            if counter is ONE or I.implied(ilt(ZERO, counter)):
                I.pc = pc0
                from interp import Dead
                raise Dead()
        if cur_st is not None:
            bfound = found if not out_rets else and_(found, not_(retc))
            st = I.merge_state(bfound, cur_st, base)
        else:
            st = base
        I.st = st
        I.pc = pc0 + ([not_(found) if cur_st is None else not_(and_(found, retc))] if out_rets else [])
        I.loop_log.append(('search', site, I.frames[-1].fn['path'], counter, [(lf.name, lf.kind) for lf in solved]))
        return bval
    # ---- no closed form
    import interp as _i
    lr = _i.LoopRec()
    lr.q, lr.n, lr.head_n = q, counter, niter
    lr.bv = q
    lr.pc = list(pc0)
    lr.site, lr.fn = site, I.frames[-1].fn['path']
    lr.solved = [(lf.name, lf.kind) for lf in solved]
    finish_effects()
    st = dict(st0)
    outs = {}
    for lf in leaves:
        if lf in solved and not exits and not frets and counter is not None:
            out = lf.at(counter)
            outs[lf] = out
        else:
            out = make_out(I, lf)
            outs[lf] = out
        write_leaf(I, st, lf.ref, out)
        lr.leaves.append({'ref': lf.ref, 'name': lf.name, 'phi': lf.phi, 'init': lf.init,
                          'step': SV(lf.step) if lf.step is not None else None,
                          'out': out, 'solved': lf in solved, 'at': lf.at})
    # cells changed only on exit paths
    extra = []
    for c, s2, v in exits:
        for cc in cells0:
            if s2.get(cc) is not start.get(cc) and not any(lf.ref.cell == cc for lf in leaves) and cc not in extra:
                extra.append(cc)
    for cc in extra:
        lf = Leaf(MutRef(cc), st0[cc], st0[cc], cc.split('@')[0])
        out = make_out(I, lf)
        st[cc] = out
        lr.leaves.append({'ref': MutRef(cc), 'name': lf.name, 'phi': st0[cc], 'init': st0[cc], 'step': st0[cc],
                          'out': out, 'solved': False, 'at': None, 'exit_only': True})
    lr.normal_c = S(normal[2]) if normal is not None else FALSE
    for c, s2, v in exits:
        lr.exits.append({'c': S(c), 'vals': [SV(I.read_path(s2[l['ref'].cell], l['ref'].path)) for l in lr.leaves], 'v': SV(v)})
    retb = FALSE
    for k, (c, s2, v) in enumerate(frets):
        flag = fresh('loopret', 'B', unsolved=True)
        # values at the returning iteration: open symbols stay phi (they are the values at that iteration)
        lr.returns.append({'c': S(c), 'vals': [SV(I.read_path(s2[l['ref'].cell], l['ref'].path)) for l in lr.leaves],
                           'v': SV(v), 'flag': flag})
        stx = {cc: SV(s2[cc]) for cc in cells0 if cc in s2}
        I.frames[-1].returns.append((pc0 + [and_(not_(retb), flag)], stx, SV(v)))
        retb = or_(retb, flag)
    lr.effects = I.effects[nef:]
    lr.children = [x for x in I.loops[nlo:] if x.parent is None]
    for x in lr.children:
        x.parent = lr
    lr.infinite = counter is None
    I.loops.append(lr)
    I.loop_log.append(('rec', site, I.frames[-1].fn['path'], counter, lr))
    bval = UNIT
    vs = [v for _, _, v in exits]
    if vs and not (isinstance(vs[0], Tup) and not vs[0].items):
        bval = SV(vs[-1])
        for c, _, v in reversed(exits[:-1]):
            bval = merge(fresh('brk', 'B'), SV(v), bval)
    if normal is None and not exits and not frets:
        raise _i.Dead()
    if counter is None and not exits:
        # loop left only through returns
        I.st, I.pc = st, pc0
        raise _i.Dead()
    I.st, I.pc = st, pc0 + ([not_(retb)] if retb is not FALSE else [])
    return bval


def has_hidden(c, todo, mark):
    if local_syms(free(c), mark):
        return True
    sy = set()
    for lf in todo:
        sy |= lf.syms
    return bool(free(c) & sy)


def drop(c, x):
    if c is x:
        return TRUE
    if c.op == 'and':
        xs = list(x.args) if x.op == 'and' else [x]
        return and_(*[y for y in c.args if y not in xs])
    return c


def trip_count(c, q, sub_):
    """exit condition c (holds = leave) at the head of the loop -> number of iterations"""
    if c.op == 'not' and c.args[0].op == 'lt':
        a, b = c.args[0].args
        return lt_count(a, b, q)
    if c.op == 'lt':
        # leave when a < b  <=>  continue while b <= a  <=> b < a + 1
        a, b = c.args
        return lt_count(b, add(a, ONE), q)
    if c.op == 'eq':
        d = expand(sub(c.args[1], c.args[0]))
        dd, k = lin(d)
        co = dd.get(q)
        if co is not None and abs(co) == 1 and not any(q in free(m) for m in dd if m is not q):
            r = {m: v * (-co) for m, v in dd.items() if m is not q}
            return unlin(r, k * (-co))
    return None


def lt_count(a, b, q):
    """iterations of: while a(q) < b(q)"""
    d = expand(sub(b, a))
    dd, k = lin(d)
    co = dd.get(q)
    if co is None or any(q in free(m) for m in dd if m is not q):
        return None
    if co >= 0:
        return None
    r = unlin({m: v for m, v in dd.items() if m is not q}, k)
    if co == -1:
        lo = lower(r)
        if lo is not None and lo >= 0:
            return r
        return imax(r, ZERO)
    return fresh('ntrip', 'N')


def write_leaf(I, st, ref, v):
    save = I.st
    I.st = st
    I.write(ref, v)
    I.st = save


def make_out(I, lf):
    if isinstance(lf.phi, Arr):
        sh = lf.phi.shape
        if any(s.op == 'sym' and s.args[0].startswith('phi:') for s in sh):
            sh = tuple(fresh('out:%s.shape' % lf.name, 'N', unsolved=True) for _ in sh)
        p = fresh('out:' + lf.name, 'A', shape=sh, unsolved=True)
        if isinstance(lf.phi.body, Arr):
            bvs = [bvar(s, 'i') for s in sh]
            ish = [vsubst(s, dict(zip(lf.phi.bvs, bvs))) for s in lf.phi.body.shape]
            return Arr(sh, bvs, mkarr(ish, lambda *j: elem(p, *(tuple(bvs) + j))))
        return mkarr(sh, lambda *i: elem(p, *i))
    if isinstance(lf.phi, E):
        if lf.phi.op == 'sym':
            s = fresh('out:' + lf.name, lf.phi.args[1], unsolved=True)
            if lf.phi in TYOF:
                TYOF[s] = TYOF[lf.phi]
            return s
        return fresh('out:' + lf.name, 'N' if isint(lf.phi) else 'R', unsolved=True)
    return fresh('out:' + lf.name, 'O', unsolved=True)


def subst_data(d, m):
    if isinstance(d, E):
        return subst(d, m)
    if isinstance(d, Val):
        return vsubst(d, m)
    if isinstance(d, tuple):
        return tuple(subst_data(x, m) for x in d)
    if isinstance(d, list):
        return [subst_data(x, m) for x in d]
    return d


def subst_loop(lr, m):
    if lr.n is not None:
        lr.n = subst(lr.n, m)
    lr.pc = [subst(c, m) for c in lr.pc]
    lr.normal_c = subst(lr.normal_c, m)
    for l in lr.leaves:
        l['init'] = vsubst(l['init'], m)
        if l['step'] is not None:
            l['step'] = vsubst(l['step'], m)
    for x in lr.exits + lr.returns:
        x['c'] = subst(x['c'], m)
        x['vals'] = [vsubst(v, m) for v in x['vals']]
        x['v'] = vsubst(x['v'], m)
