"""P10: documented calls never fail with an accidental error."""
from ..check import *

ACCIDENTAL = {'AttributeError', 'TypeError', 'KeyError', 'IndexError', 'NameError', 'UnboundLocalError', 'ZeroDivisionError',
              'RecursionError'}
SCALAR_PARAM = ('ClaytonCopula', 'FrankCopula', 'GumbelCopula')


class CHECK(Rule):
    """Type and typestate analysis along every abstract path of every public call with documented argument kinds: no attribute access on None, no
    missing attribute, no call with a wrong signature or of something not callable, no use of an undefined name, no missing dictionary key, no index
    known to be out of bounds, no operator applied to operands it does not support, no numpy-style positional indexing of a DataFrame or Series.
    An error is reported where every alternative of the value leads to it.  In addition no public method is left with accidental
    errors (TypeError, AttributeError, IndexError, KeyError, ...) as its only outcomes."""
    pid = 'P10'
    dims = (2, 3)
    MIN = {'abstract_calls': 3000, 'operations': 20000}

    FIXTURE = '''
import numpy as np
import pandas as pd

class Thing:
    def __init__(self):
        self.x = 1

    def f(self, a, b):
        return a

def bad_none(x):
    y = None
    return y.shape

def bad_attr(x):
    return Thing().y

def bad_signature(x):
    return Thing().f(x)

def bad_keyword(x):
    return Thing().f(x, c=1)

def bad_callable(x):
    v = 1
    return v(x)

def bad_name(x):
    return undefined_name + 1

def bad_key(x):
    d = {'a': 1}
    return d['b']

def bad_op(x):
    return 'a' - 1

def bad_frame(data):
    df = pd.DataFrame(np.asarray(data))
    return df[:, 0]

def good_maybe(x, flag=False):
    y = None if flag else np.zeros(3)
    return y.shape if y is not None else ()

def good_key(x):
    d = {'a': 1}
    return d.get('b', 2)

def good_call(x):
    return Thing().f(x, b=2)

def good_frame(data):
    df = pd.DataFrame(np.asarray(data))
    return df.iloc[:, 0]
'''

    def skip(self, c):
        lab = c.label or ''
        inst = getattr(c, 'inst', None)
        if inst is None:
            return False
        if inst.name not in SCALAR_PARAM and ('x0=float' in lab or c.kind == 'set' and lab == 'float'):
            return True
        return c.name in ('from_dict', 'from_vector')

    def pre_call(self, c):
        self.off = self.skip(c)

    def hard(self, node, cx, msg):
        if not self.off and self.phase is not None:
            self.report(node, cx, src(node), msg)

    def on_noneattr(self, attr, st, node, cx, **k):
        self.hard(node, cx, 'uses %s of None' % ('an item' if attr == '[]' else 'attribute ' + attr))

    def on_attrerror(self, obj, attr, st, node, cx, **k):
        self.hard(node, cx, '%s has no attribute %s' % (obj.cls.name if obj.cls is not None else 'object', attr))

    def on_notcallable(self, atom, st, node, cx, **k):
        self.hard(node, cx, 'calls something that is not callable (%s)' % (atom.name if isinstance(atom, Ext) else type(atom).__name__))

    def on_badcall(self, fn, err, st, node, cx, **k):
        self.hard(node, cx, 'call does not fit the signature of %s: %s' % (fn.name, err))

    def on_unbound(self, name, st, node, cx, **k):
        self.hard(node, cx, 'name %s is not defined' % name)

    def on_keyerror(self, obj, key, st, node, cx, **k):
        self.hard(node, cx, 'key %r is not in the dictionary' % (key,))

    def on_oob(self, arr, idx, st, node, cx, **k):
        self.hard(node, cx, 'index %s is out of bounds for shape %s' % (idx, arr.shape))

    def on_misuse(self, what, st, node, cx, **k):
        self.hard(node, cx, what)

    def on_badop(self, op, left, right, st, node, cx, **k):
        self.hard(node, cx, 'operator %s is applied to operands that do not support it' % op)

    def on_index(self, **k):
        self.count['operations'] += 1

    def on_enter(self, **k):
        self.count['operations'] += 1

    def post_call(self, c):
        if self.off or c.out.value is not None or c.out.budget or getattr(c, 'inst', None) is None:
            return
        names = set()
        for e in c.out.exits:
            x = self.ip.exc_name(e.exc, e.st)
            names.add(x.name if hasattr(x, 'name') else str(x).split('.')[-1])
        if names and names <= ACCIDENTAL:
            e = c.out.exits[0]
            self.report(e.node, e.cx, src(e.node), '%s.%s always ends in %s' % (c.inst.name, c.name, ', '.join(sorted(names))))
