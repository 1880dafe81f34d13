"""Collects the obligations of one property."""
import time
from decide import equal_val, Res, show_val
from values import *


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []           # dict(key, where, status, detail, cells)
        self.fns = set()
        self.counts = {}
        self.t0 = time.time()

    def add(self, key, where, status, detail='', cells=0):
        self.obs.append({'key': key, 'where': where, 'status': status, 'detail': str(detail)[:1500], 'cells': cells})

    def ok(self, key, where, detail='', cells=1):
        self.add(key, where, 'held', detail, cells)

    def bad(self, key, where, detail):
        self.add(key, where, 'violated', detail)

    def und(self, key, where, detail):
        self.add(key, where, 'undecided', detail)

    def check(self, key, where, cond, detail=''):
        self.add(key, where, 'held' if cond else 'violated', detail, 1)

    def res(self, key, where, r):
        self.add(key, where, r.status, r.detail, r.cells)

    def val(self, key, where, a, b, space, idx=()):
        for path, r in equal_val(a, b, space, idx):
            self.res(key + path, where, r)

    def regions(self, key, where, a, b, space, regions, idx=()):
        """like val, with the strata split into named regions: {name: predicate on the stratum name}"""
        for rn, pred in regions.items():
            sp = space.with_(strata=[s for s in space.strata if pred(s[0])])
            for path, r in equal_val(a, b, sp, idx):
                self.res(key + path + '@' + rn, where, r)

    def analysed(self, I):
        for f in getattr(I, 'inlined', {}):
            self.fns.add(f)
        self.count('loops closed', len([l for l in I.loop_log if l[0] == 'closed']))
        self.count('side conditions recorded', len(I.effects))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n
