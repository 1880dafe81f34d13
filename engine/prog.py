"""The program database: THIR dumps of the crates, types, impl resolution."""
import json


class Program:
    def __init__(self, paths):
        self.fns = {}
        self.bypath = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.crates = []
        self.statics = []
        for p in paths:
            self.load(p)

    def load(self, path):
        d = json.load(open(path))
        raw = d['types']
        cache = {}

        def ty(i):
            if not isinstance(i, int):
                return ('const', str(i))
            if i in cache:
                return cache[i]
            t = raw[i]
            k = t['k']
            if k == 'prim':
                r = ('prim', t['name'])
            elif k == 'param':
                r = ('param', t['name'])
            elif k == 'adt':
                r = ('adt', t['path'], tuple(ty(a) for a in t['args']))
            elif k == 'ref':
                r = ('ref', bool(t['mut']), ty(t['ty']))
            elif k == 'ptr':
                r = ('ptr', ty(t['ty'])) if isinstance(t.get('ty'), int) else ('ptr',)
            elif k == 'slice':
                r = ('slice', ty(t['ty']))
            elif k == 'array':
                r = ('array', ty(t['ty']), str(t.get('len')))
            elif k == 'tuple':
                r = ('tuple', tuple(ty(a) for a in t['args']))
            elif k == 'closure':
                r = ('closure', t['id'])
            elif k == 'fndef':
                r = ('fndef', t['path'], t.get('id'))
            elif k == 'proj':
                r = ('proj', t.get('trait'), t['name'], tuple(ty(a) for a in t['args']))
            else:
                r = ('other', json.dumps(t, sort_keys=True))
            cache[i] = r
            return r

        def conv(x):
            """resolve type indices inside expression trees"""
            if isinstance(x, dict):
                o = {}
                for k, v in x.items():
                    if k == 'ty' and isinstance(v, int):
                        o[k] = ty(v)
                    elif k == 'args' and 'path' in x and isinstance(v, list):
                        o[k] = tuple(ty(a) for a in v)
                    elif k == 'impl_self' and isinstance(v, int):
                        o[k] = ty(v)
                    else:
                        o[k] = conv(v)
                return o
            if isinstance(x, list):
                return [conv(v) for v in x]
            return x

        crate = d['crate']
        self.crates.append(crate)
        for f in d['fns']:
            f['crate'] = crate
            body = f.get('body')
            f['_raw'] = body
            f['params'] = conv(f.get('params') or [])
            f['inputs'] = [ty(i) for i in f.get('inputs') or []]
            f['output'] = ty(f['output']) if isinstance(f.get('output'), int) else None
            f['_conv'] = conv
            self.fns[f['id']] = f
            self.bypath.setdefault(f['path'], f)
        for a in d['adts']:
            a['crate'] = crate
            for v in a['variants']:
                for fl in v['fields']:
                    fl['ty'] = ty(fl['ty'])
            self.adts[a['path']] = a
        for i in d['impls']:
            i['crate'] = crate
            i['self'] = ty(i['self'])
            i['targs'] = tuple(ty(a) for a in i.get('targs', ()))
            i.setdefault('trait', None)
            i['assoc'] = [(n, ty(t)) for n, t in i['assoc']]
            for b in i.get('bounds', []):
                b['args'] = tuple(ty(a) for a in b['args'])
            i['itemd'] = dict((n, f) for n, f in i['items'])
            self.impls.append(i)
        for t in d['traits']:
            self.traits[t['path']] = t
        for s in d.get('statics', []):
            self.statics.append(dict(s, crate=crate) if isinstance(s, dict) else {'path': s, 'crate': crate})

    def body(self, f):
        if '_body' not in f:
            f['_body'] = f['_conv'](f['_raw']) if f.get('_raw') is not None else None
        return f['_body']

    # -------------------------------------------------------------- types
    def tsubst(self, t, env):
        if not env:
            return t
        k = t[0]
        if k == 'param':
            return env.get(t[1], t)
        if k == 'adt':
            return ('adt', t[1], tuple(self.tsubst(a, env) for a in t[2]))
        if k == 'ref':
            return ('ref', t[1], self.tsubst(t[2], env))
        if k in ('slice', 'array'):
            return (k, self.tsubst(t[1], env)) + t[2:]
        if k == 'tuple':
            return ('tuple', tuple(self.tsubst(a, env) for a in t[1]))
        if k == 'proj':
            return self.normalize(('proj', t[1], t[2], tuple(self.tsubst(a, env) for a in t[3])))
        return t

    def normalize(self, t):
        if t[0] == 'proj':
            r = self.resolve_impl(t[1], t[3])
            if r:
                imp, env = r
                for n, ty in imp['assoc']:
                    if n == t[2]:
                        return self.tsubst(ty, env)
        return t

    def unify(self, pat, t, env, gens):
        if pat[0] == 'param' and pat[1] in gens:
            if pat[1] in env:
                return env[pat[1]] == t or env[pat[1]][0] in ('param', 'proj') or t[0] in ('param', 'proj')
            env[pat[1]] = t
            return True
        if pat[0] == 'proj':
            return True
        if t[0] == 'param' or t[0] == 'proj':
            # an unknown type: only matches generics
            return pat[0] in ('param', 'proj') and pat == t
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k == 'adt':
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(
                self.unify(a, b, env, gens) for a, b in zip(pat[2], t[2]))
        if k == 'ref':
            return pat[1] == t[1] and self.unify(pat[2], t[2], env, gens)
        if k == 'tuple':
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, env, gens) for a, b in zip(pat[1], t[1]))
        if k in ('slice', 'array'):
            return self.unify(pat[1], t[1], env, gens) and pat[2:] == t[2:]
        return pat == t

    def resolve_impl(self, trait, targs, depth=0):
        """the local impl of `trait` for targs[0] = Self; returns (impl, env) or None"""
        cands = []
        if depth > 4 or not targs:
            return None
        if targs[0][0] in ('param', 'proj'):
            return None
        for i in self.impls:
            if i['trait'] != trait:
                continue
            env = {}
            gens = set(i['generics'])
            if len(i['targs']) != len(targs):
                continue
            # regions/consts are dropped or equal
            if not self.unify(i['targs'][0], targs[0], env, gens):
                continue
            ok = True
            for a, b in zip(i['targs'][1:], targs[1:]):
                if b[0] == 'const' or a[0] == 'const':
                    continue
                if not self.unify(a, b, env, gens):
                    ok = False
                    break
            if not ok:
                continue
            # check trait bounds on params that are bound to concrete types
            for b in i.get('bounds', []):
                if b['args'] and b['trait'] in self.traits:
                    a0 = self.tsubst(b['args'][0], env)
                    if a0[0] in ('adt', 'ref', 'tuple'):
                        args = tuple(self.tsubst(a, env) for a in b['args'])
                        if not self.resolve_impl(b['trait'], args, depth + 1):
                            ok = False
                            break
            if ok:
                cands.append((i, env))
        if len(cands) == 1:
            return cands[0]
        # prefer non-blanket
        nb = [c for c in cands if c[0]['targs'][0][0] != 'param']
        if len(nb) == 1:
            return nb[0]
        return None

    # -------------------------------------------------------------- lookup
    def find(self, *frag, crate=None, name=None):
        out = []
        for f in self.fns.values():
            if f.get('derived') or '::tests::' in f['path'] or f['path'].endswith('::tests'):
                continue
            if crate and f['crate'] != crate:
                continue
            if name and f.get('name') != name:
                continue
            if all(x in f['path'] for x in frag):
                out.append(f)
        return out

    def trait_impls(self, trait):
        return [i for i in self.impls if i['trait'] == trait and not i.get('derived')]


def tname(t):
    k = t[0]
    if k == 'prim' or k == 'param':
        return t[1]
    if k == 'adt':
        n = t[1].split('::')[-1]
        return n + ('<' + ','.join(tname(a) for a in t[2]) + '>' if t[2] else '')
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + tname(t[2])
    if k == 'tuple':
        return '(' + ','.join(map(tname, t[1])) + ')'
    if k == 'proj':
        return '<%s>::%s' % (tname(t[3][0]) if t[3] else '?', t[2])
    if k in ('array', 'slice'):
        return '[%s]' % tname(t[1])
    return k
