"""M10: the linear-system helper, elimination step by elimination step.

The THIR of the helper is interpreted for a symbolic system; what is decided are its loop records (state before, state after one
iteration, return conditions), instantiated at every position of a system of up to five unknowns whose entries stay symbolic.
For each iteration, and each combination of outcomes of the zero tests it makes:
  - every row of the new augmented matrix is the same linear combination of the old rows on all columns, and the matrix of the
    combinations is invertible (an elimination step that keeps the solutions);
  - a division has a denominator known to be non-zero;
  - an error is only returned when the zero pattern alone makes the matrix singular;
  - which entries are certainly zero / non-zero afterwards is carried to the next iteration.
At the end the answer must solve the final system, whose matrix must be invertible.  An obligation that fails is reported only
with a system on which the value graph gives a wrong answer; otherwise it is undecided.
"""
import itertools
import random
from fractions import Fraction
from api import *
from decide import *
from norm import Norm, padd
from sigma import Sigma


class Stuck(Exception):
    pass


class Fork(Exception):
    def __init__(self, e):
        self.e = e


class Conc:
    """rewrites a node whose sizes and positions are numbers into one without binders, under assumed outcomes of tests"""

    concrete = False        # are entries numbers? then so are the constants of the type (those of f64)

    def __init__(self, table, assume, nonzero, nested=None, pm=None):
        self.table, self.assume, self.nonzero = table, assume, nonzero
        self.memo = {}
        self.dens = []
        self.nested = nested or {}
        self.pm = pm or {}
        self.done = set()

    def run(self, L):
        """a loop without closed form inside the loop whose iteration is looked at: unrolled"""
        if L.exits or L.returns or L.n is None:
            raise Stuck('loop at line %d' % L.site[1])
        if L in self.done:
            raise Stuck('loop at line %d uses its own result' % L.site[1])
        self.done.add(L)
        st = [state(self, lf['init'], self.pm) for lf in L.leaves]
        for t in range(self.i(subst(L.n, self.pm))):
            C = Conc({**self.table, **{leaf_sym(lf['phi']): s for lf, s in zip(L.leaves, st)}}, self.assume, self.nonzero, self.nested, {**self.pm, L.q: num(t)})
            C.dens = self.dens
            st = [state(C, lf['step'], C.pm) for lf in L.leaves]
        for lf, s in zip(L.leaves, st):
            self.table[leaf_sym(lf['out'])] = s

    def i(self, e):
        r = self.go(e)
        if r.op != 'num' or Fraction(r.args[0]).denominator != 1:
            raise Stuck('position %s' % show(r)[:120])
        return int(r.args[0])

    def test(self, t):
        """the outcome of a comparison left over after rewriting"""
        if t in (TRUE, FALSE):
            return t
        if t.op == 'feq':
            a, b = t.args
            z = b if a is ZERO else a if b is ZERO else None
            if z is not None and nonzero(z, self.nonzero):
                return FALSE
            if z is not None and is_zero(z):
                return TRUE
        if t.op == 'not':
            return not_(self.test(t.args[0]))
        if t in self.assume:
            return TRUE if self.assume[t] else FALSE
        raise Fork(t)

    def go(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self._go(e)
        return r

    def _go(self, e):
        op, a = e.op, e.args
        if op in ('num', 'bool', 'str'):
            return e
        if op == 'sym':
            if self.concrete and e.args[0] == 'const:epsilon':
                return num(Fraction(1, 2 ** 52))
            if self.concrete and e.args[0] == 'const:min_positive_value':
                return num(Fraction(1, 2 ** 1022))
            if e not in self.table and e in self.nested:
                self.run(self.nested[e])
            v = self.table.get(e, e)
            return v if isinstance(v, E) else e
        if op == 'bv':
            raise Stuck('bound variable')
        if op in ('sum', 'any', 'first', 'all', 'maxr', 'minr', 'scat'):
            n = self.i(a[1])
            if n > 64:
                raise Stuck('range')
            if op == 'sum':
                return add(*[self.go(subst(a[2], {a[0]: num(k)})) for k in range(n)]) if n > 0 else ZERO
            if op == 'any':
                for k in range(n):
                    if self.go(subst(a[2], {a[0]: num(k)})) is TRUE:
                        return TRUE
                return FALSE
            if op == 'first':
                for k in range(n):
                    if self.go(subst(a[2], {a[0]: num(k)})) is TRUE:
                        return num(k)
                return num(n)
            if op == 'scat':
                for k in reversed(range(n)):
                    if self.go(subst(a[2], {a[0]: num(k)})) is TRUE:
                        return self.go(subst(a[3], {a[0]: num(k)}))
                return self.go(a[4])
            raise Stuck(op)
        if op == 'sel':
            c = self.go(a[0])
            return self.go(a[1] if c is TRUE else a[2])
        if op == 'and':
            for x in sorted(a, key=cost):
                if self.go(x) is FALSE:
                    return FALSE
            return TRUE
        if op == 'or':
            for x in sorted(a, key=cost):
                if self.go(x) is TRUE:
                    return TRUE
            return FALSE
        if op == 'not':
            return not_(self.go(a[0]))
        if op in ('feq', 'flt', 'fle', 'eq', 'lt'):
            if INF in a or NINF in a:
                # every entry is a number
                x = 1 if a[0] is INF else -1 if a[0] is NINF else 0
                y = 1 if a[1] is INF else -1 if a[1] is NINF else 0
                return TRUE if (x == y if op in ('feq', 'eq') else x <= y if op == 'fle' else x < y) else FALSE
            f = REBUILD[op](self.go(a[0]), self.go(a[1]))
            return self.test(f)
        if op == 'elem':
            if a[0] not in self.table and a[0] in self.nested:
                self.run(self.nested[a[0]])
            t = self.table.get(a[0])
            if t is None:
                raise Stuck('array %s' % show(a[0])[:80])
            ix = tuple(self.i(x) for x in a[1:])
            if ix not in t:
                raise Stuck('entry %s of %s' % (ix, show(a[0])[:60]))
            return t[ix]
        if op == 'div':
            x, y = self.go(a[0]), self.go(a[1])
            self.dens.append(y)
            if y is ZERO:
                return mk('div', x, y)
            return div(x, y)
        if op in ('add', 'mul', 'imax', 'imin', 'idiv', 'mod', 'abs', 'sign', 'max', 'min'):
            r = REBUILD[op](*[self.go(x) for x in a])
            return r
        raise Stuck('%s in %s' % (op, show(e)[:100]))


def cost(e):
    return 1 if e.op in ('any', 'first', 'feq', 'not') else 0


def nform(e):
    N = Norm(Sigma({}, None, seed=3))
    return N, N.nf(e)


def is_zero(e):
    if e.op == 'num':
        return e is ZERO
    N, p = nform(e)
    return N.is_zero(p)


def atoms_known(p, known):
    if len(p) != 1:
        return False
    (m, c), = p.items()
    if c == 0:
        return False
    for at, ex in m:
        A = ATOMS[at]
        if not (A[0] == 'e' and A[1] in known):
            return False
    return True


def nonzero(e, known):
    """certainly non-zero: one monomial whose factors are known to be non-zero"""
    if e.op == 'num':
        return e is not ZERO
    if e in known:
        return True
    try:
        N, p = nform(e)
    except Exception:
        return False
    return atoms_known(p, known)


from norm import ATOMS


def det(m):
    n = len(m)
    if n == 0:
        return ONE
    out = []
    for j in range(n):
        if m[0][j] is ZERO:
            continue
        sub_ = det([row[:j] + row[j + 1:] for row in m[1:]])
        if sub_ is ZERO:
            continue
        t = mul(m[0][j], sub_)
        out.append(neg(t) if j % 2 else t)
    return add(*out) if out else ZERO


def structurally_singular(pat):
    """pat[r][c]: may the entry be non-zero?  no perfect matching: singular whatever the other entries are"""
    n = len(pat)
    match = [-1] * n

    def aug(r, seen):
        for c in range(n):
            if pat[r][c] and c not in seen:
                seen.add(c)
                if match[c] < 0 or aug(match[c], seen):
                    match[c] = r
                    return True
        return False
    return sum(aug(r, set()) for r in range(n)) < n


def forks(f, limit=400):
    """all outcomes of f(assume), splitting on the tests it cannot decide"""
    todo = [{}]
    out = []
    while todo:
        a = todo.pop()
        try:
            out.append((a, f(a)))
        except Fork as k:
            todo.append({**a, k.e: False})
            todo.append({**a, k.e: True})
        if len(out) + len(todo) > limit:
            raise Stuck('too many cases')
    return out


def refine(assume, known):
    """what the assumed tests say: symbols that are zero, symbols that are not"""
    zero, nz = set(), set(known)
    for t, v in assume.items():
        if t.op == 'feq':
            a, b = t.args
            z = b if a is ZERO else a if b is ZERO else None
            if z is not None:
                (zero if v else nz).add(z)
    return zero, nz


class Helper:
    """the interpreted helper: its loops in order, the leaves that make up the augmented matrix, and its result"""

    def __init__(self, api):
        self.f = api.fn('solve_lin_sys')
        self.I = api.interp()
        self.K = sym('K', 'N')
        A, self.A = mkarray('A', (self.K, self.K))
        b, self.b = mkarray('b', (self.K,))
        self.out = api.call(self.I, self.f, [A, b])
        if self.I.unknown:
            raise Stuck('not understood: %s' % (self.I.unknown[0],))
        self.loops = [L for L in self.I.loops if L.parent is None and L.leaves]
        self.nested = {}
        for L in self.I.loops:
            if L.parent is not None:
                for lf in L.leaves:
                    s = lf['out'] if isinstance(lf['out'], E) else arr_sym(lf['out'])
                    if s is not None:
                        self.nested[s] = L
        if has_unknown(self.out):
            raise Stuck('the result is not understood')

    def inst(self, v, m):
        return subst(v, m)


def has_unknown(v):
    if isinstance(v, E):
        return has_top(v)
    if isinstance(v, Arr):
        return has_top(v.body)
    if isinstance(v, Cond):
        return has_top(v.c) or has_unknown(v.a) or has_unknown(v.b)
    if isinstance(v, Adt):
        return any(has_unknown(x) for x in v.fields.values())
    return False


def arr_sym(v):
    """the array symbol behind a leaf value [i,j -> s[i,j]]"""
    if isinstance(v, Arr) and isinstance(v.body, E) and v.body.op == 'elem' and tuple(v.body.args[1:]) == tuple(v.bvs):
        return v.body.args[0]
    return None


def entries(C, v, K, kmap):
    """all entries of an array value, rewritten"""
    sh = [C.i(subst(s, kmap)) for s in v.shape]
    body = v.body
    if not isinstance(body, E):
        raise Stuck('array of %r' % (body,))
    out = {}
    for ix in itertools.product(*[range(n) for n in sh]):
        out[ix] = C.go(subst(body, {**kmap, **{b: num(k) for b, k in zip(v.bvs, ix)}}))
    return out


def leaf_sym(v):
    s = v if isinstance(v, E) and v.op == 'sym' else arr_sym(v)
    if s is None:
        raise Stuck('state %s' % show_val(v)[:80])
    return s


def state(C, v, pm):
    if isinstance(v, Arr):
        return entries(C, v, None, pm)
    if isinstance(v, E):
        return C.go(subst(v, pm))
    raise Stuck('state %s' % show_val(v)[:80])


def augmented(shapes, K):
    """which leaves hold the matrix and the right-hand side"""
    for n, sh in shapes.items():
        if sh == (K, K + 1):
            return (lambda st: [[st[n][r, c] for c in range(K + 1)] for r in range(K)]), {n}
    mats = [n for n, sh in shapes.items() if sh == (K, K)]
    vecs = [n for n, sh in shapes.items() if sh == (K,)]
    if len(mats) == 1 and len(vecs) == 1:
        return (lambda st: [[st[mats[0]][r, c] for c in range(K)] + [st[vecs[0]][r,]] for r in range(K)]), {mats[0], vecs[0]}
    return None, None


def result(C, v, kmap):
    """('Ok', entries) or ('Err',)"""
    while isinstance(v, Cond):
        v = v.a if C.go(subst(v.c, kmap)) is TRUE else v.b
    if isinstance(v, Adt) and v.variant == 'Ok':
        x = v.fields['0']
        if not isinstance(x, Arr) or x.ndim != 1:
            raise Stuck('answer %s' % show_val(x)[:100])
        return 'Ok', entries(C, x, None, kmap)
    if isinstance(v, Adt) and v.variant == 'Err':
        return 'Err', None
    raise Stuck('result %s' % show_val(v)[:100])


def proof(H, K, rep_cells):
    """discharge the obligations for systems of K unknowns; returns list of (key, ok, detail)"""
    obs = []
    kmap = {H.K: num(K)}
    tables = {H.A: {(r, c): sym('A%d%d' % (r, c)) for r in range(K) for c in range(K)}, H.b: {(r,): sym('b%d' % r) for r in range(K)}}
    known = set()
    flags = {}
    C = Conc({**tables, **flags}, {}, known)
    cur = None
    post = []
    for li, L in enumerate(H.loops):
        name = 'loop at line %d' % L.site[1]
        if any(lf['out'] is None for lf in L.leaves):
            raise Stuck('a loop state without value')
        if post:
            post.append(L)
            continue
        # state at the start
        C = Conc({**tables, **flags}, {}, known)
        st = {lf['name']: entries(C, lf['init'], K, kmap) for lf in L.leaves if isinstance(lf['init'], Arr)}
        if len(st) != len(L.leaves) or len({lf['name'] for lf in L.leaves}) != len(L.leaves):
            raise Stuck('a loop state that is not an array')
        shapes = {n: tuple(max(ix[d] for ix in e) + 1 for d in range(len(next(iter(e))))) for n, e in st.items() if e}
        getaug, names = augmented(shapes, K)
        if getaug is None and cur is not None:
            post.append(L)          # computes the answer from the eliminated system
            continue
        if getaug is None:
            raise Stuck('%s: no augmented matrix in its state' % name)
        if li == 0:
            A0 = getaug(st)
            good = all(A0[r][c] is tables[H.A][r, c] for r in range(K) for c in range(K)) and all(A0[r][K] is tables[H.b][r,] for r in range(K))
            obs.append(('%d unknowns: start' % K, good, '' if good else 'the elimination does not start from the given system'))
        n = C.i(subst(L.n, kmap)) if L.n is not None else None
        if n is None or L.exits:
            raise Stuck('%s: not a counted loop' % name)
        # the state as symbols with facts
        for t in range(n):
            st2, known2 = {}, set()
            for nm, es in st.items():
                if nm not in names:
                    raise Stuck('%s: further state %s' % (name, nm))
                st2[nm] = {}
                for ix, e in es.items():
                    rhs = ix[-1] == K if len(ix) == 2 else True
                    if e is ZERO and not rhs:
                        st2[nm][ix] = ZERO
                    else:
                        s = sym('%s.%s.%s' % (nm, t, '.'.join(map(str, ix))))
                        if nonzero(e, known):
                            known2.add(s)
                        st2[nm][ix] = s
            phis = {}
            for lf in L.leaves:
                p = arr_sym(lf['phi'])
                if p is None:
                    raise Stuck('%s: loop state' % name)
                phis[p] = st2[lf['name']]
            pm = {**kmap, L.q: num(t)}
            aug0 = getaug(st2)
            key = '%d unknowns: %s, iteration %d' % (K, name, t)

            def one(assume):
                zero, nz = refine(assume, known2)
                tab = {p: {ix: ZERO if e in zero else e for ix, e in es.items()} for p, es in phis.items()}
                C = Conc({**tables, **flags, **tab}, assume, nz, H.nested, pm)
                ret = []
                for r in L.returns:
                    if C.go(subst(r['c'], pm)) is TRUE:
                        v = r['v']
                        return 'ret', v, C, tab, nz, zero
                new = {}
                for lf in L.leaves:
                    if not isinstance(lf['step'], Arr):
                        raise Stuck('%s: step' % name)
                    new[lf['name']] = entries(C, lf['step'], K, pm)
                return 'step', new, C, tab, nz, zero
            cases = forks(one)
            join = None
            good, why = True, ''
            for assume, (kind, v, C, tab, nz, zero) in cases:
                rep_cells[0] += 1
                a0 = [[ZERO if e in zero else e for e in row] for row in aug0]
                bad = [d for d in C.dens if not nonzero(d, nz)]
                if bad:
                    good, why = False, 'divides by %s, which may be zero' % show(bad[0])[:100]
                if kind == 'ret':
                    if not (isinstance(v, Adt) and v.variant == 'Err'):
                        raise Stuck('%s: an early answer' % name)
                    if not structurally_singular([[a0[r][c] is not ZERO for c in range(K)] for r in range(K)]):
                        good, why = False, 'an error is returned although the matrix need not be singular'
                    continue
                a1 = getaug(v)
                rhs = [a0[p][K] for p in range(K)]
                M = [[subst(a1[r][K], {rhs[q]: ONE if q == p else ZERO for q in range(K)}) for p in range(K)] for r in range(K)]
                for r in range(K):
                    for c in range(K + 1):
                        if not is_zero(sub(a1[r][c], add(*[mul(M[r][p], a0[p][c]) for p in range(K)]))):
                            good, why = False, 'row %d is not the same combination of rows on column %d as on the right-hand side' % (r, c)
                if not nonzero(det(M), nz):
                    good, why = False, 'the step is not known to be invertible'
                facts = {}
                for nm, es in v.items():
                    for ix, e in es.items():
                        facts[nm, ix] = 'zero' if is_zero(e) else 'nonzero' if nonzero(e, nz) else 'any'
                join = facts if join is None else {k: f if join[k] == f else 'any' for k, f in facts.items()}
            obs.append((key, good, why))
            if join is None:
                st, known = None, set()
                break
            known = set()
            st = {}
            for (nm, ix), f in join.items():
                if f == 'zero':
                    e = ZERO
                else:
                    e = sym('%s.%s.%s after' % (nm, t, '.'.join(map(str, ix))))
                    if f == 'nonzero':
                        known.add(e)
                st.setdefault(nm, {})[ix] = e
        if st is None:
            return obs
        for lf in L.leaves:
            o = arr_sym(lf['out'])
            if o is None:
                raise Stuck('%s: state after' % name)
            tables[o] = st[lf['name']]
        for r in L.returns:
            flags[r['flag']] = FALSE
        cur = getaug(st)
    if cur is None:
        raise Stuck('no elimination loop')

    def last(assume):
        zero, nz = refine(assume, known)
        tab = {p: {ix: ZERO if e in zero else e for ix, e in es.items()} for p, es in tables.items()}
        C = Conc({**tab, **flags}, assume, nz)
        dens = C.dens
        for L in post:
            st = {lf['name']: entries(C, lf['init'], K, kmap) for lf in L.leaves}
            if len(st) != len(L.leaves) or L.exits or L.n is None:
                raise Stuck('loop at line %d' % L.site[1])
            for t in range(C.i(subst(L.n, kmap))):
                pm = {**kmap, L.q: num(t)}
                C = Conc({**tab, **flags, **{arr_sym(lf['phi']): st[lf['name']] for lf in L.leaves}}, assume, nz, H.nested, pm)
                C.dens = dens
                for r in L.returns:
                    if C.go(subst(r['c'], pm)) is TRUE:
                        return result(C, r['v'], pm), C, nz, zero
                st = {lf['name']: entries(C, lf['step'], K, pm) for lf in L.leaves}
            tab = {**tab, **{arr_sym(lf['out']): st[lf['name']] for lf in L.leaves}}
            C = Conc({**tab, **flags, **{r['flag']: FALSE for r in L.returns}}, assume, nz)
            C.dens = dens
        for L in post:
            C.table.update({r['flag']: FALSE for r in L.returns})
        return result(C, H.out, kmap), C, nz, zero
    good, why = True, ''
    for assume, ((kind, x), C, nz, zero) in forks(last):
        rep_cells[0] += 1
        S = [[ZERO if e in zero else e for e in row] for row in cur]
        mat = [[S[r][c] for c in range(K)] for r in range(K)]
        if kind == 'Err':
            if not structurally_singular([[e is not ZERO for e in row] for row in mat]):
                good, why = False, 'an error is returned although the matrix need not be singular'
            continue
        bad = [d for d in C.dens if not nonzero(d, nz)]
        if bad:
            good, why = False, 'divides by %s, which may be zero' % show(bad[0])[:100]
            continue
        if len(x) != K:
            good, why = False, 'the answer has %d entries' % len(x)
            continue
        for r in range(K):
            if not is_zero(sub(add(*[mul(S[r][c], x[c,]) for c in range(K)]), S[r][K])):
                good, why = False, 'the answer does not solve equation %d of the final system' % r
        if not nonzero(det(mat), nz):
            good, why = False, 'an answer is given although the final matrix is not known to be invertible'
    obs.append(('%d unknowns: answer' % K, good, why))
    return obs


# ---------------------------------------------------------------- witnesses
def evaluate(H, A, b):
    """the value graph on a given system"""
    K = len(b)
    kmap = {H.K: num(K)}
    tables = {H.A: {(r, c): num(A[r][c]) for r in range(K) for c in range(K)}, H.b: {(r,): num(b[r]) for r in range(K)}}
    flags = {}
    for L in H.loops:
        C = Conc({**tables, **flags}, {}, set())
        skip = any(c in flags and flags[c] is TRUE for r in H.loops for c in [x['flag'] for x in r.returns])
        st = {lf['name']: entries(C, lf['init'], K, kmap) for lf in L.leaves}
        n = C.i(subst(L.n, kmap))
        for r in L.returns:
            flags.setdefault(r['flag'], FALSE)
        for t in range(n):
            tab = {arr_sym(lf['phi']): st[lf['name']] for lf in L.leaves}
            pm = {**kmap, L.q: num(t)}
            C = Conc({**tables, **flags, **tab}, {}, set(), H.nested, pm)
            hit = next((r for r in L.returns if C.go(subst(r['c'], pm)) is TRUE), None)
            if hit is not None:
                return result(C, hit['v'], pm)
            st = {lf['name']: entries(C, lf['step'], K, pm) for lf in L.leaves}
        for lf in L.leaves:
            tables[arr_sym(lf['out'])] = st[lf['name']]
    return result(Conc({**tables, **flags}, {}, set()), H.out, kmap)


def rank_det(A):
    A = [[Fraction(x) for x in r] for r in A]
    n = len(A)
    d = Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            A[i], A[p] = A[p], A[i]
            d = -d
        d *= A[i][i]
        for r in range(i + 1, n):
            f = A[r][i] / A[i][i]
            A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return d


def systems():
    for a in (0, 1, 2):
        yield [[a]], [3]
    for m in itertools.product((0, 1, 2), repeat=4):
        yield [[m[0], m[1]], [m[2], m[3]]], [3, -1]
    for e in (Fraction(1, 50), Fraction(1, 10 ** 5), Fraction(1, 10 ** 9), Fraction(1, 10 ** 14), Fraction(1, 10 ** 20), Fraction(10 ** 6)):
        yield [[e]], [1]
        yield [[e, 1], [1, 1]], [1, 2]
        yield [[1, 1], [e, 1]], [1, 2]
        yield [[1, 1], [1, 1 + e]], [1, 2]
        yield [[e, 0, 0], [0, e, e], [0, -e, e]], [1, 2, 3]
    rng = random.Random(11)
    for K, n in ((3, 160), (4, 80), (5, 20)):
        for _ in range(n):
            yield [[rng.choice((0, 0, 1, 1, 2, -1, 3)) for _ in range(K)] for _ in range(K)], [rng.randint(-4, 4) for _ in range(K)]


def witness(H):
    """a system on which the value graph contradicts the property"""
    Conc.concrete = True
    try:
        return witness_(H)
    finally:
        Conc.concrete = False


def witness_(H):
    for A, b in systems():
        try:
            kind, x = evaluate(H, A, b)
        except Fork:
            continue
        d = rank_det(A)
        txt = 'A = [%s], b = %s' % ('; '.join(' '.join(str(x) for x in r) for r in A), show_x(b))
        if kind == 'Err':
            if d != 0:
                return 'reports a singular system for the regular one %s' % txt
            continue
        K = len(b)
        xs = [x.get((k,)) for k in range(K)]
        if any(v is None or v.op != 'num' for v in xs):
            if any(v is not None and any(y.op == 'div' and y.args[1] is ZERO for y in walk(v)) for v in xs):
                return 'answers with a division by zero for %s' % txt
            continue
        xs = [Fraction(v.args[0]) for v in xs]
        if d == 0:
            return 'answers %s for the singular system %s' % (show_x(xs), txt)
        if any(sum(A[r][c] * xs[c] for c in range(K)) != b[r] for r in range(K)):
            return 'answers %s, which does not solve %s' % (show_x(xs), txt)
    return None


def show_x(xs):
    return '[%s]' % ', '.join(str(x) for x in xs)


def M10(api, rep, upto=5):
    try:
        H = Helper(api)
    except Stuck as ex:
        rep.und('interpretation', 'solve_lin_sys', str(ex))
        return
    where = H.f['path']
    rep.analysed(H.I)
    cells = [0]
    failed = None
    try:
        for K in range(1, upto + 1):
            for key, ok, why in proof(H, K, cells):
                if ok:
                    rep.ok(key, where)
                else:
                    failed = failed or (key, why)
    except Stuck as ex:
        failed = failed or ('form', str(ex))
    except Fork as ex:
        failed = failed or ('form', 'undecided test %s' % show(ex.e)[:100])
    rep.count('cases', cells[0])
    if failed:
        w = None
        try:
            w = witness(H)
        except Stuck as ex:
            pass
        if w:
            rep.bad('%s' % failed[0], where, '%s: %s' % (failed[1], w))
        else:
            rep.und('%s' % failed[0], where, failed[1])
