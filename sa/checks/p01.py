"""P01: caller-owned data is never modified."""
from ..check import *


class CHECK(Rule):
    """Ownership dataflow: every array, DataFrame, Series, list, dictionary and GMCParam handed to a public entry point carries a
    caller region; regions follow views and aliases (asarray, ravel, slices, attributes, retained instance state) and
    are dropped by copies.  Any in-place effect (item/slice/augmented assignment, mutating method, out=, attribute
    assignment, C-level element store) reaching a caller region is a violation."""
    pid = 'P01'
    MIN = {'abstract_calls': 3000, 'mutation_sites': 60}

    FIXTURE = '''
import numpy as np

def bad_store(x):
    x = np.asarray(x)
    x[x < 0] = 0
    return x

def bad_aug(x):
    y = np.atleast_2d(np.asarray(x, float)).ravel()
    y *= 2
    return y

def bad_sort(x):
    np.asarray(x).sort()
    return x

def bad_out(x):
    x = np.asarray(x)
    np.exp(x, out=x)
    return x

def good_copy(x):
    x = np.array(x, dtype=float)
    x[x < 0] = 0
    x *= 2
    return x

def good_mask(x):
    y = np.asarray(x)
    y = y[y > 0]
    y += 1
    return y
'''

    def start(self, S):
        super().start(S)
        self.sites = set()

    def on_mutate(self, roots, tag, how, st, node, cx, **k):
        self.count['mutations'] += 1
        self.sites.add(id(node))
        bad = sorted({str(r[1]) for r in roots if isinstance(r, tuple) and r and r[0] == 'arg'})
        if bad and self.phase is not None:
            names = sorted({_short(b) for b in bad})
            self.report(node, cx, src(node), '%s modifies data owned by the caller (%s)' % (how, ', '.join(names)))

    def on_setattr(self, oid, obj, attr, value, st, node, cx, **k):
        t = obj.tag
        if isinstance(t, tuple) and t and t[0] == 'arg' and cx.fn is not None and cx.parent is not None:
            owner = cx
            # the constructor of the object itself is not a modification by somebody else
            self.report(node, cx, src(node), 'assigns attribute %s of an object owned by the caller (%s)' % (attr, _short(str(t[1]))))

    def unit_done(self):
        self.count['mutation_sites'] = len(self.sites)


def _short(b):
    for p in ('s0.', 's1.'):
        if b.startswith(p):
            b = b[len(p):]
    return b
