"""P06: integer input is not truncated."""
from ..check import *


class CHECK(Rule):
    """Dtype dataflow: the element type of every array is tracked from the arguments, whose dtype is unknown and may be integer.  A real-valued
    result written into storage whose element type is inherited from the caller's data (item assignment, in-place arithmetic, out=, fill) is
    silently rounded when the caller passes integers, and is a violation."""
    pid = 'P06'
    dims = (2, 3)
    MIN = {'abstract_calls': 3000, 'stores': 200}

    FIXTURE = '''
import numpy as np

def bad_like(x):
    r = np.empty_like(x)
    r[:] = np.exp(x)
    return r

def bad_zeros(x):
    r = np.zeros_like(x)
    for i in range(len(x)):
        r[i] = np.log(x[i]) / 2
    return r

def bad_copy(x):
    y = np.array(x)
    y[y < 3] = 0.5
    return y

def bad_inplace(x):
    y = np.array(x)
    y /= 3
    return y

def bad_dtype(x):
    x = np.asarray(x)
    r = np.zeros(x.shape, dtype=x.dtype)
    r[0] = np.sqrt(2.0)
    return r

def bad_out(x):
    r = np.array(x)
    np.exp(x, out=r)
    return r

def good_float(x):
    r = np.empty_like(x, dtype=float)
    r[:] = np.exp(x)
    return r

def good_asfloat(x):
    y = np.array(x, dtype=float)
    y /= 3
    y[y < 3] = 0.5
    return y

def good_same(x):
    r = np.empty_like(x)
    r[:] = x[::-1]
    return r

def good_shape(x):
    r = np.zeros(np.shape(x))
    r[0] = 0.5
    return r
'''

    def on_store(self, arr, value, how, st, node, cx, aug=None, **k):
        self.count['stores'] += 1
        if arr.dtype not in ('u', 'i'):
            return
        if aug is not None:
            dt = 'f' if aug[0] == 'div' else self.kind(aug[1], st)
        else:
            dt = self.kind(value, st)
        if dt == 'f':
            self.report(node, cx, src(node), '%s of real values into storage that has the integer or unknown element type of the input' % how)

    def on_outarg(self, value, dt, st, node, cx, **k):
        self.count['stores'] += 1
        for a in value.atoms():
            if isinstance(a, Arr) and a.dtype in ('u', 'i') and dt == 'f':
                self.report(node, cx, src(node), 'out= receives real values but has the integer or unknown element type of the input')

    def kind(self, value, st):
        """'f' when the value is real on some path"""
        for a in value.atoms():
            if isinstance(a, Const):
                if isinstance(a.v, float) and not (a.v == a.v and abs(a.v) != float('inf') and a.v == int(a.v)):
                    return 'f'
            elif isinstance(a, Num):
                if a.kind == 'float':
                    return 'f'
            elif isinstance(a, Arr):
                if a.dtype == 'f':
                    return 'f'
        return None
