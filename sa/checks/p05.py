"""P05: nothing is printed unless asked for."""
from ..check import *


class CHECK(Rule):
    """Effect analysis of every public entry point with verbose left out where a call has no such parameter and verbose=0 where it has one: no
    reachable statement prints, writes to the standard streams or logs, and the optimiser is not told to display progress."""
    pid = 'P05'
    dims = (2, 3)
    imports = True
    MIN = {'abstract_calls': 3000, 'minimize': 10}

    FIXTURE = '''
import sys
from scipy.optimize import minimize

def bad_print(x):
    print(x)
    return x

def bad_write(x):
    sys.stdout.write('x')
    return x

def bad_level(x, verbose=0):
    if verbose >= 0:
        print(x)
    return x

def bad_disp(x, verbose=0):
    return minimize(lambda y: y, x, options={'disp': True})

def good_level(x, verbose=0):
    if verbose >= 1:
        print(x)
    return x

def good_disp(x, verbose=0):
    return minimize(lambda y: y, x, options={'disp': verbose >= 2})
'''

    def quiet(self):
        c = self.call
        return c is None or 'verbose' not in c.label or 'verbose=0' in c.label

    def on_print(self, st, node, cx, name='print', **k):
        self.count['print_sites'] += 1
        if self.call is not None and not self.silent():
            return
        self.report(node, cx, src(node), 'writes to the standard output of a silent call')

    def silent(self):
        c = self.call
        kw = getattr(c, 'kw', None) or {}
        v = kw.get('verbose')
        if v is None:
            return not self.has_verbose(c)
        return v.const() == (True, 0)

    def has_verbose(self, c):
        try:
            if hasattr(c, 'fv'):
                sg = signature(self.S, c.fv)
            else:
                mv = self.S.ip.lookup_cls(c.inst.cls, c.name, c.pre)
                sg = signature(self.S, mv) if mv is not None else None
        except AttributeError:
            return False
        if sg is None:
            return False
        for n, d, k in sg[0]:
            if n == 'verbose':
                # left out: silent only when its default is 0
                f = sg[3]
                for fr, dv in zip(reversed([a.arg for a in f.node.args.args]), reversed(f.node.args.defaults)):
                    if fr == 'verbose' and isinstance(dv, ast.Constant):
                        return dv.value != 0
                return True
        return False

    def on_ext(self, name, args, kw, st, node, cx, **k):
        if not name.endswith('optimize.minimize') and not name.endswith('minimize_scalar'):
            return
        self.count['minimize'] += 1
        if self.call is None or not self.silent():
            return
        own = kw.get('options')
        self.check(own, st, node, cx)

    def check(self, own, st, node, cx):
        if own is None:
            return
        for a in own.atoms():
            if not isinstance(a, Ref):
                continue
            o = self.S.ip.obj(st, a.oid)
            if o is None or not o.keys or (isinstance(o.tag, tuple) and o.tag and o.tag[0] == 'arg'):
                continue
            for key in ('disp', 'full_output', 'verbose'):
                v = o.keys.get(key)
                if v is None:
                    continue
                for x in v.atoms():
                    if isinstance(x, Const) and x.v:
                        self.report(node, cx, "options['%s']" % key, 'the optimiser is told to display progress in a silent call')
