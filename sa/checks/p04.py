"""P04: no ambient side effects."""
from ..check import *


class CHECK(Rule):
    """Effect analysis over module loading and every public entry point: no reachable statement may change process-wide settings
    (warning filters outside catch_warnings, numpy error/print state, pandas options, environment, libc or global generator seeding that the
    caller did not ask for), rebind a module global or class attribute, patch another module, or modify an object created at module level."""
    pid = 'P04'
    dims = (2, 3)
    imports = True
    MIN = {'abstract_calls': 3000}

    FIXTURE = '''
import warnings
import numpy as np

TABLE = {'a': 1}
LIST = []
STATE = None

class K:
    n = 0

def bad_filter(x):
    warnings.filterwarnings('ignore')
    return x

def bad_simple(x):
    warnings.simplefilter('error')
    return x

def bad_seterr(x):
    np.seterr(all='ignore')
    return x

def bad_seed(x):
    np.random.seed(1)
    return x

def bad_table(x):
    TABLE['a'] = x
    return x

def bad_list(x):
    LIST.append(x)
    return x

def bad_global(x):
    global STATE
    STATE = x
    return x

def bad_class(x):
    K.n = x
    return x

def good_catch(x):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        y = np.log(x)
    return y

def good_errstate(x):
    with np.errstate(all='ignore'):
        return np.log(x)

def good_seed(x, seed=None):
    if seed is not None:
        np.random.seed(seed)
    return np.random.uniform(size=3)

def good_local(x):
    t = dict(TABLE)
    t['a'] = x
    r = np.random.RandomState(3)
    return r.uniform(size=3)
'''

    def on_globset(self, name, st, node, cx, value=None, oid=None, **k):
        if node is None:
            return
        if self.call is None:
            # module loading: a module defining its own globals and tables is not an effect
            if name == 'module-level object' or not name.startswith(('warnings.', 'numpy.', 'pandas.', 'os.', 'sys.')):
                return
        self.report(node, cx, src(node), 'changes process-wide state (%s)' % name)

    def on_rng(self, op, gen, name, st, node, cx, value=None, **k):
        if op != 'seed':
            return
        self.count['seeding'] += 1
        if value is not None and 'seed' in value.deps:
            return
        if value is not None and isinstance(value.single(), Opq) and value.single().hint == 'rngstate':
            return
        self.report(node, cx, src(node), 'reseeds the %s generator although the caller passed no seed' % gen)
