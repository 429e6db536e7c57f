"""Models of everything outside the analysed package: builtins, numpy, pandas, scipy, C library.

Default for an unknown external callable: it returns a fresh unknown value, mutates none of its arguments,
and may call the callables it is given.
"""
import ast
import collections.abc
import math

from .values import *
from .values import V, T, TT, joinv, joinall, mk, const, anyv, cterm, NOD

EXT_TYPE = {'int': int, 'float': float, 'str': str, 'bool': bool, 'complex': complex, 'tuple': tuple, 'list': list,
            'dict': dict, 'set': set, 'Sized': collections.abc.Sized, 'Iterable': collections.abc.Iterable,
            'Collection': collections.abc.Collection, 'Sequence': collections.abc.Sequence, 'Hashable': collections.abc.Hashable,
            'Mapping': collections.abc.Mapping, 'Callable': collections.abc.Callable, 'type': type, 'object': object,
            'bytes': bytes, 'Container': collections.abc.Container, 'Iterator': collections.abc.Iterator}

EXC_NAMES = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object)}
import builtins as _b
EXCS = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}

CONSTS = {'numpy.pi': math.pi, 'numpy.e': math.e, 'numpy.inf': math.inf, 'numpy.Inf': math.inf, 'numpy.nan': math.nan,
          'numpy.NaN': math.nan, 'numpy.NAN': math.nan, 'numpy.newaxis': None, 'math.pi': math.pi, 'math.inf': math.inf, 'math.nan': math.nan,
          'math.e': math.e, 'math.NAN': math.nan, 'math.INFINITY': math.inf, 'math.M_PI': math.pi, 'numpy.True_': True, 'numpy.False_': False,
          'typing.TYPE_CHECKING': False}
ALIAS = {'libc.math': 'math', 'libcpp.cmath': 'math', 'scipy.stats.distributions': 'scipy.stats', 'scipy.optimize.optimize': 'scipy.optimize',
         'numpy.random.mtrand': 'numpy.random', 'scipy.stats._distn_infrastructure': 'scipy.stats',
         'numpy.float_': 'numpy.float64', 'numpy.core.numeric': 'numpy', 'pandas.core.frame': 'pandas', 'pandas.core.series': 'pandas',
         'scipy.special.cython_special': 'scipy.special', 'numpy.absolute': 'numpy.abs', 'numpy.concatenate': 'numpy.concatenate',
         'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'math.fabs': 'numpy.abs', 'numpy.fabs': 'numpy.abs',
         'numpy.arccos': 'numpy.arccos', 'numpy.power': 'numpy.power', 'collections.abc': 'collections.abc'}
for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'log1p', 'expm1', 'floor', 'ceil', 'isnan', 'isinf', 'isfinite', 'log10', 'log2', 'sinh', 'cosh', 'tanh',
           'hypot'):
    ALIAS['math.' + _n] = 'numpy.' + _n
ALIAS['math.atan2'] = 'numpy.arctan2'
ALIAS['math.pow'] = 'numpy.power'

EW_F = set('exp log sqrt log1p expm1 log10 log2 sin cos tan arcsin arccos arctan sinh cosh tanh arctan2 hypot true_divide divide '
           'angle deg2rad rad2deg cbrt reciprocal exp2 logaddexp float_power nan_to_num sinc arctanh arcsinh arccosh'.split())
EW_F_OTHER = {'scipy.special.' + n for n in ('gamma gammaln loggamma digamma psi beta betaln erf erfc ndtr ndtri xlogy xlog1py logit expit '
                                             'polygamma binom comb gammainc gammaincc stdtr stdtrit log_ndtr').split()}
EW_SAME = set('abs maximum minimum sign square positive negative fmax fmin add subtract multiply mod remainder power '
              'clip conj conjugate real imag fmod floor_divide'.split())
EW_FLOOR = set('floor ceil round around rint trunc fix round_'.split())
EW_B = set('isnan isfinite isinf isposinf isneginf isclose less less_equal greater greater_equal equal not_equal logical_and logical_or '
           'logical_not logical_xor isin in1d signbit isreal iscomplex isneginf'.split())
RED = {'sum': None, 'prod': None, 'max': None, 'min': None, 'mean': 'f', 'std': 'f', 'var': 'f', 'median': 'f', 'any': 'b', 'all': 'b',
       'argmax': 'i', 'argmin': 'i', 'count_nonzero': 'i', 'nansum': None, 'nanmean': 'f', 'nanmax': None, 'nanmin': None, 'ptp': None,
       'trapz': 'f', 'quantile': 'f', 'percentile': 'f', 'average': 'f', 'nanprod': None, 'nanstd': 'f', 'nanvar': 'f'}
CUM = set('cumsum cumprod sort argsort diff flip fliplr flipud roll tile repeat unique tril triu nancumsum gradient'.split())
VIEW = set('ravel reshape transpose squeeze atleast_1d atleast_2d atleast_3d expand_dims swapaxes broadcast_to moveaxis rollaxis '
           'asarray asanyarray ascontiguousarray asfortranarray asarray_chkfinite diagonal real_if_close matrix asmatrix require rot90 array_split split hsplit vsplit'.split())
INPLACE_FN = {'fill_diagonal': 0, 'copyto': 0, 'put': 0, 'putmask': 0, 'place': 0, 'put_along_axis': 0}
MUT_ARR = {'sort', 'fill', 'put', 'itemset', 'resize', 'partition', 'setfield', 'insert', 'pop', 'update', 'setflags', 'byteswap'}
MUT_LIST = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__'}
MUT_DICT = {'update', 'setdefault', 'pop', 'popitem', 'clear', '__setitem__', '__delitem__'}
MUT_SET = {'add', 'update', 'remove', 'discard', 'pop', 'clear', 'intersection_update', 'difference_update', 'symmetric_difference_update'}
MUT_OPQ = {'append', 'extend', 'update', 'setdefault', 'popitem', 'sort', 'fill', 'itemset', 'clear', 'remove', 'insert', 'reverse', 'discard', 'put'}

RNG_DRAWS = set('uniform normal rand randn random randint random_sample choice exponential standard_exponential standard_normal chisquare gamma beta '
                'poisson binomial multivariate_normal permutation shuffle standard_t multinomial dirichlet lognormal laplace logistic '
                'integers random_integers ranf sample bytes standard_gamma standard_cauchy t f geometric weibull pareto vonmises wald triangular '
                'noncentral_chisquare negative_binomial hypergeometric logseries gumbel rayleigh zipf power permuted'.split())

NOCALLBACK = {'functools.wraps', 'inspect.getfullargspec', 'inspect.signature', 'builtins.getattr', 'builtins.callable', 'builtins.isinstance',
              'builtins.repr', 'builtins.str', 'builtins.id', 'builtins.hash', 'builtins.type', 'builtins.print', 'functools.partial',
              'builtins.hasattr', 'builtins.setattr', 'warnings.warn', 'builtins.tuple', 'builtins.list', 'builtins.dict', 'builtins.set'}


def short(name):
    if name.startswith('numpy.'):
        return 'np.' + name[6:]
    return name


FOLD = {'numpy.isnan': math.isnan, 'numpy.isinf': math.isinf, 'numpy.isfinite': math.isfinite, 'numpy.abs': abs, 'numpy.floor': lambda x: float(math.floor(x)),
        'numpy.ceil': lambda x: float(math.ceil(x)), 'numpy.sqrt': math.sqrt, 'numpy.maximum': lambda a, b: a if b != b or a >= b else b,
        'numpy.minimum': lambda a, b: a if b != b or a <= b else b, 'numpy.sign': lambda x: (x > 0) - (x < 0) if x == x else x, 'numpy.negative': lambda x: -x}


class Ext_:
    def __init__(self, ip):
        self.ip = ip

    # ------------------------------------------------------------- names
    def canon(self, name):
        if name in ALIAS:
            return ALIAS[name]
        for k, v in ALIAS.items():
            if name.startswith(k + '.'):
                r = v + name[len(k):]
                return ALIAS.get(r, r)
        return name

    def ext_value(self, name):
        if name in CONSTS:
            return const(CONSTS[name])
        if name in ('sys.float_info.epsilon',):
            return mk(Num('float'), T('sym', name))
        return mk(Ext(name))

    # ------------------------------------------------------------- array helpers
    def info(self, a, st):
        """(dtype, shape, roots, scalar) of an array-like atom; None when not array-like"""
        if isinstance(a, Const):
            if isinstance(a.v, bool):
                return 'b', (), frozenset(), True
            if isinstance(a.v, int):
                return 'i', (), frozenset(), True
            if isinstance(a.v, (float, complex)):
                return 'f' if isinstance(a.v, float) else 'o', (), frozenset(), True
            return None
        if isinstance(a, Num):
            return {'float': 'f', 'int': 'i', 'bool': 'b', 'u': 'u'}.get(a.kind, 'o'), (), frozenset(), True
        if isinstance(a, Arr):
            return a.dtype, a.shape, a.roots, False
        if isinstance(a, (Tup, Ref)):
            o = self.ip.obj(st, a.oid) if isinstance(a, Ref) else None
            if isinstance(a, Ref) and (o is None or o.kind not in ('list', 'iter', 'set', 'inst')):
                return None
            if o is not None and o.kind == 'inst' and not (o.cls is not None and o.cls.nt_fields):
                return None
            ex = self.ip.exact_elems(a, st)
            if ex is not None:
                if not ex:
                    return 'f', (0,), frozenset(), False
                el = joinall(ex)
                n = len(ex)
            else:
                el, n = o.all_elem() or ANY, None
            dts, shs = [], []
            for b, _ in el.alts:
                x = self.info(b, st)
                if x is None:
                    return 'o', None, frozenset(), False
                dts.append(x[0])
                shs.append(x[1])
            dt = dts[0] if dts else 'o'
            for d in dts[1:]:
                dt = self.comb(dt, d)
            sh = shs[0] if shs and all(s == shs[0] for s in shs) else None
            if o is not None and isinstance(o.tag, tuple) and dt == 'o':
                dt = 'u'
            return dt, ((n,) + sh if sh is not None else None), frozenset(), False
        if isinstance(a, Opq):
            return ('u' if a.roots else 'o'), None, a.roots, False
        return None

    @staticmethod
    def comb(a, b):
        if a == b:
            return a
        if 'o' in (a, b):
            return 'f' if 'f' in (a, b) else 'o'
        if 'f' in (a, b):
            return 'f'
        if 'u' in (a, b):
            return 'u'
        return 'i'

    @staticmethod
    def bshape(s, t):
        if s is None or t is None:
            return None
        if len(s) < len(t):
            s, t = t, s
        t = (1,) * (len(s) - len(t)) + tuple(t)
        out = []
        for x, y in zip(s, t):
            if x == y and not (x is None):
                out.append(x)
            elif x is y:
                out.append(x)
            elif isinstance(x, int) and x == 1:
                out.append(y)
            elif isinstance(y, int) and y == 1:
                out.append(x)
            elif isinstance(x, int) and x > 1 and y is None:
                out.append(x)
            elif isinstance(y, int) and y > 1 and x is None:
                out.append(y)
            elif x is None:
                out.append(y if not isinstance(y, int) else None)
            elif y is None:
                out.append(x if not isinstance(x, int) else None)
            else:
                out.append(x)
        return tuple(out)

    def fresh(self, cls, dtype, shape, node, cx, term=None, k=0, deps=NOD):
        return mk(Arr(cls, {self.ip.fresh_root(node, cx, k)}, dtype, shape), term, deps)

    def arr_binop(self, op, a, b, term, node, st, cx):
        if isinstance(a, StrA) or isinstance(b, StrA):
            ip = self.ip
            if op in ('sub', 'div', 'mul', 'pow', 'matmul', 'floordiv'):
                ip.emit('misuse', what='arithmetic with a label', st=st, node=node, cx=cx)
                ip.raise_ext('TypeError', st, node, cx)
                return None
        ia, ib = self.info(a, st), self.info(b, st)
        if ia is None or ib is None:
            return mk(Opq(), term)
        if op == 'div':
            dt = 'f'
        elif op == 'matmul':
            dt = self.comb(ia[0], ib[0])
            sh = None
            if ia[1] is not None and ib[1] is not None:
                sa, sb = ia[1], ib[1]
                if len(sa) == 2 and len(sb) == 2:
                    sh = (sa[0], sb[1])
                elif len(sa) == 2 and len(sb) == 1:
                    sh = (sa[0],)
                elif len(sa) == 1 and len(sb) == 2:
                    sh = (sb[1],)
                elif len(sa) == 1 and len(sb) == 1:
                    return mk(Num('float' if dt == 'f' else 'num'), term)
            return self.fresh('ndarray', dt, sh, node, cx, term)
        else:
            dt = self.comb(ia[0], ib[0])
            if dt == 'b' and op not in ('and', 'or', 'xor'):
                dt = 'i'
            if dt == 'o' and op in ('and', 'or') and 'b' in (ia[0], ib[0]):
                dt = 'b'
        cls = 'DataFrame' if any(isinstance(x, Arr) and x.cls == 'DataFrame' for x in (a, b)) else \
            ('Series' if any(isinstance(x, Arr) and x.cls == 'Series' for x in (a, b)) else 'ndarray')
        sh = self.bshape(ia[1], ib[1])
        if sh == ():
            return mk(Num({'f': 'float', 'i': 'int', 'b': 'bool', 'u': 'u'}.get(dt, 'num')), term)
        return self.fresh(cls, dt, sh, node, cx, term)

    def arr_compare(self, name, a, b, term, node, st, cx):
        ia, ib = self.info(a, st), self.info(b, st)
        sh = self.bshape(ia[1], ib[1]) if ia and ib else None
        cls = a.cls if isinstance(a, Arr) else (b.cls if isinstance(b, Arr) else 'ndarray')
        if sh == ():
            return mk(Num('bool'), term)
        return self.fresh(cls, 'b', sh, node, cx, term)

    def dim_value(self, d):
        if isinstance(d, int):
            return const(d)
        if isinstance(d, Term):
            return mk(Num('int'), d)
        return mk(Num('int'))

    def arr_attr(self, a, t, attr, st, node, cx, call=False):
        ip = self.ip
        if attr == 'T' or attr == 'transpose' and not call:
            return mk(a.rep(shape=tuple(reversed(a.shape)) if a.shape is not None else None), TT('np.transpose', t))
        if attr == 'shape':
            if a.shape is not None:
                return mk(Tup([self.dim_value(d) if d is not None else mk(Num('int'), TT('dim', t, i)) for i, d in enumerate(a.shape)]),
                          TT('attr', t, 'shape'))
            return mk(Opq(frozenset(), 'shape'), TT('attr', t, 'shape'))
        if attr == 'ndim':
            if a.cls == 'DataFrame':
                return const(2)
            if a.cls == 'Series':
                return const(1)
            if a.shape is not None:
                return const(len(a.shape))
            return mk(Num('int'), TT('attr', t, 'ndim'))
        if attr == 'size':
            if a.shape is not None and all(isinstance(d, int) for d in a.shape):
                n = 1
                for d in a.shape:
                    n *= d
                return const(n)
            if a.shape is not None and any(isinstance(d, int) and d > 1 for d in a.shape):
                return mk(Num('int'), T('manysize', t if t is not None else repr(sorted(map(repr, a.roots)))))
            return mk(Num('int'), TT('attr', t, 'size'))
        if attr == 'dtype' or attr == 'dtypes':
            return mk(Opq(frozenset(), 'dtype:' + a.dtype))
        if attr in ('real', 'flat', 'imag', 'base'):
            return mk(a, TT('np.' + attr, t))
        if attr == 'values' and not call:
            return mk(Arr('ndarray', a.roots, a.dtype, a.shape), TT('np.asarray', t))
        if attr == 'columns':
            if a.cls == 'DataFrame':
                return mk(Opq(frozenset(r for r in a.roots), 'columns'), TT('attr', t, 'columns'), frozenset({'columns'}))
            if a.cls == 'ndarray':
                ip.raise_ext('AttributeError', st, node, cx)
                return None
        if attr == 'index' and a.cls != 'ndarray':
            return mk(Opq(frozenset(r for r in a.roots), 'columns'), TT('attr', t, 'index'), frozenset({'columns' if a.cls == 'Series' else 'rowindex'}))
        if attr in ('iloc', 'loc', 'at', 'iat') and a.cls != 'ndarray':
            return mk(Partial(Ext('pandas.' + attr), (mk(a, t),), ()), TT('attr', t, attr))
        if attr == 'str' or attr == 'dt':
            return mk(Opq())
        if attr == 'name':
            return mk(Opq())
        if attr == 'nbytes' or attr == 'itemsize':
            return mk(Num('int'))
        if a.cls == 'ndarray' and attr in ('to_numpy', 'iterrows', 'to_frame', 'loc', 'iloc', 'items', 'describe', 'head'):
            ip.raise_ext('AttributeError', st, node, cx)
            return None
        return mk(BMeth(a, attr, t))

    # index classification
    def idx_parts(self, i):
        a = i.single()
        if isinstance(a, Tup):
            return list(a.elts)
        return [i]

    def idx_kind(self, v, st):
        """'int' | 'slice' | 'none' | 'ellipsis' | 'mask' | 'fancy' | 'str' | '?'"""
        ks = set()
        for a, _ in v.alts:
            if isinstance(a, Const):
                if a.v is None:
                    ks.add('none')
                elif isinstance(a.v, bool):
                    ks.add('mask')
                elif isinstance(a.v, int):
                    ks.add('int')
                elif isinstance(a.v, str):
                    ks.add('str')
                else:
                    ks.add('?')
            elif isinstance(a, Num):
                ks.add('int' if a.kind in ('int', 'num') else ('mask' if a.kind == 'bool' else '?'))
            elif isinstance(a, Partial) and isinstance(a.fn, Ext) and a.fn.name == 'builtins.slice':
                ks.add('slice')
            elif isinstance(a, Ext) and a.name == 'builtins.Ellipsis':
                ks.add('ellipsis')
            elif isinstance(a, Arr):
                ks.add('mask' if a.dtype == 'b' else 'fancy')
            elif isinstance(a, (Tup, Ref)):
                ks.add('fancy')
            elif isinstance(a, StrA):
                ks.add('str')
            else:
                ks.add('?')
        return ks.pop() if len(ks) == 1 else '?'

    def scalar_of(self, dtype, term=None):
        return mk(Num({'f': 'float', 'i': 'int', 'b': 'bool', 'u': 'u'}.get(dtype, 'num')), term)

    def slice_dim(self, d, v):
        a = v.single()
        lo, hi, sp = a.args
        cs = [x.const() for x in (lo, hi, sp)]
        if all(o for o, _ in cs):
            l, h, s = [c for _, c in cs]
            if l is None and h is None and s in (None, -1, 1):
                return d
            if isinstance(d, int):
                try:
                    return len(range(*slice(l, h, s).indices(d)))
                except Exception:
                    return None
            if l is None and s is None and isinstance(h, int) and h >= 0:
                return None
        return None

    def frame_misuse(self, a, parts, kinds, st, node, cx):
        """numpy style indexing of a DataFrame or Series, which pandas rejects"""
        if a.cls == 'DataFrame' and (len(parts) > 1 and set(kinds) & {'slice', 'none', 'ellipsis', 'mask', 'fancy'}
                                     or kinds == ['none'] or kinds == ['ellipsis']):
            self.ip.emit('misuse', what='positional indexing of a DataFrame', st=st, node=node, cx=cx)
            self.ip.raise_ext('KeyError', st, node, cx)
            return True
        if a.cls == 'Series' and (len(parts) > 1 and 'none' in kinds or kinds == ['none']):
            self.ip.emit('misuse', what='multi-dimensional indexing of a Series', st=st, node=node, cx=cx)
            self.ip.raise_ext('ValueError', st, node, cx)
            return True
        return False

    def loc_getitem(self, how, v, i, st, node, cx):
        """frame.loc[rows, columns] and frame.iloc[rows, columns]"""
        parts = self.idx_parts(i)
        kinds = [self.idx_kind(p, st) for p in parts]
        out = []
        for a, t in v.alts:
            if not isinstance(a, Arr):
                return ANY
            if a.cls != 'DataFrame' or len(kinds) > 2 or not set(kinds) <= {'slice', 'fancy', 'mask', 'int', 'str'}:
                return ANY
            sh = a.shape if a.shape is not None else (None, None)
            dims, fresh = [], False
            for n, (k, d) in enumerate(zip(kinds + ['slice'] * (2 - len(kinds)), sh)):
                if k == 'slice':
                    p = parts[n] if n < len(parts) else None
                    full = p is None or all(isinstance(x, Partial) and all(y.const() == (True, None) for y in x.args) for x in p.atoms())
                    dims.append(d if full else None)
                elif k in ('fancy', 'mask'):
                    dims.append(None)
                    fresh = True
            if not dims:
                out.append(self.scalar_of(a.dtype))
            else:
                roots = {self.ip.fresh_root(node, cx)} if fresh else a.roots
                term = TT('item', TT('attr', t, how[7:]), i.term())
                out.append(mk(Arr('DataFrame' if len(dims) == 2 else 'Series', roots, a.dtype, tuple(dims)), term))
        return joinall(out)

    def arr_getitem(self, a, t, i, st, node, cx):
        ip = self.ip
        term = TT('item', t, i.term())
        parts = self.idx_parts(i)
        kinds = [self.idx_kind(p, st) for p in parts]
        if a.cls == 'DataFrame':
            if self.frame_misuse(a, parts, kinds, st, node, cx):
                return None
            k = kinds[0] if len(kinds) == 1 else '?'
            if k == 'str':
                return mk(Arr('Series', a.roots, a.dtype, (a.shape[0],) if a.shape else (None,)), term)
            if k == 'mask':
                return self.fresh('DataFrame', a.dtype, (None, a.shape[1] if a.shape else None), node, cx, term)
            if k == 'slice':
                return mk(a.rep(shape=(None, a.shape[1] if a.shape else None)), term)
            if k == 'fancy' or k == '?' and any(isinstance(x, Opq) and x.hint == 'columns' for x, _ in i.alts):
                r = self.fresh('DataFrame', a.dtype, (a.shape[0] if a.shape else None, None), node, cx, term)
                return r.with_deps({'colselect'})
            return joinv(mk(Arr('Series', a.roots, a.dtype, (None,)), term), self.fresh('DataFrame', a.dtype, None, node, cx, term))
        if a.cls == 'Series':
            if self.frame_misuse(a, parts, kinds, st, node, cx):
                return None
            k = kinds[0] if len(kinds) == 1 else '?'
            if k in ('int', 'str'):
                return self.scalar_of(a.dtype, term)
            if k == 'slice':
                return mk(a.rep(shape=(None,)), term)
            r = self.fresh('Series', a.dtype, a.shape if k == 'fancy' else (None,), node, cx, term)
            return r.with_deps({'colselect'}) if k in ('fancy', '?') else r
        basic = all(k in ('int', 'slice', 'none', 'ellipsis') for k in kinds)
        if basic:
            if a.shape is None:
                if all(k == 'int' for k in kinds):
                    return mk(Arr('ndarray', a.roots, a.dtype, None), term)
                return mk(Arr('ndarray', a.roots, a.dtype, None), term)
            n_use = sum(1 for k in kinds if k in ('int', 'slice'))
            rest = len(a.shape) - n_use
            if rest < 0:
                ip.raise_ext('IndexError', st, node, cx)
                return None
            out, pos, seen_ell = [], 0, False
            for p, k in zip(parts, kinds):
                if k == 'none':
                    out.append(1)
                elif k == 'ellipsis':
                    out += list(a.shape[pos:pos + rest])
                    pos += rest
                    seen_ell = True
                elif k == 'int':
                    ok, c = p.const()
                    if ok and isinstance(a.shape[pos], int) and not (-a.shape[pos] <= c < a.shape[pos]):
                        ip.emit('oob', arr=a, idx=c, st=st, node=node, cx=cx)
                        ip.raise_ext('IndexError', st, node, cx)
                        return None
                    pos += 1
                else:
                    out.append(self.slice_dim(a.shape[pos], p))
                    pos += 1
            if not seen_ell:
                out += list(a.shape[pos:])
            if not out:
                return self.scalar_of(a.dtype, term)
            return mk(Arr('ndarray', a.roots, a.dtype, tuple(out)), term)
        # fancy / mask: a copy
        sh = None
        if a.shape is not None and len(kinds) == 1:
            x = parts[0].single()
            if kinds[0] == 'mask':
                r = len(x.shape) if isinstance(x, Arr) and x.shape is not None else 1
                if r <= len(a.shape):
                    sh = (None,) + tuple(a.shape[r:])
            elif kinds[0] == 'fancy' and isinstance(x, Arr) and x.shape is not None:
                sh = tuple(x.shape) + tuple(a.shape[1:])
            elif kinds[0] == 'fancy':
                sh = (None,) + tuple(a.shape[1:])
        elif a.shape is not None and all(k in ('mask', 'fancy', 'slice', 'int') for k in kinds) and len(kinds) == len(a.shape):
            adv = [k for k in kinds if k in ('mask', 'fancy')]
            if len(adv) == 1:
                sh = tuple(None if k in ('mask', 'fancy') else (self.slice_dim(d, p)) for k, d, p in zip(kinds, a.shape, parts) if k != 'int')
            elif len(adv) == len(kinds):
                sh = (None,)
        if '?' in kinds:
            # unknown index: may be a scalar, a view or a copy
            return mk(Arr('ndarray', {ip.fresh_root(node, cx)}, a.dtype, None), term)
        return self.fresh('ndarray', a.dtype, sh, node, cx, term)

    def arr_item_at(self, a, t, i, st, node, cx):
        if isinstance(a, Opq):
            return mk(Opq(a.roots), TT('item', t, cterm(i)))
        return self.arr_getitem(a, t, const(i), st, node, cx) or ANY

    def opq_attr(self, a, attr):
        if attr in ('columns', 'index'):
            return Opq(a.roots, 'columns')
        if attr in ('T', 'values', 'flat'):
            return Opq(a.roots, a.hint)
        if attr in ('ndim', 'size'):
            return Num('int')
        if attr == 'shape':
            return Opq(frozenset(), 'shape')
        if a.hint == 'optresult':
            if attr == 'x':
                return Arr('ndarray', {('optx',)}, 'f', (None,))
            if attr in ('fun',):
                return Num('float')
            return Opq()
        if a.hint == 'shape':
            return Opq()
        if isinstance(a.hint, str) and a.hint.startswith('dtype:'):
            return Opq(frozenset(), a.hint)
        return Opq(a.roots)

    def opq_getitem(self, a, t, i, st, node, cx):
        term = TT('item', t, i.term())
        ok, k = i.const()
        if a.hint == 'shape':
            if ok and isinstance(k, int):
                base = t.args[0] if t is not None and t.op == 'attr' else None
                return mk(Num('int'), TT('dim', base, k) if base is not None else term)
            return mk(Opq(frozenset(), 'shape'), term) if self.idx_kind(i, st) == 'slice' else mk(Num('int'), term)
        if a.hint == 'optresult':
            if ok and k == 'x':
                return mk(Arr('ndarray', {('optx', id(node))}, 'f', (None,)), TT('attr', t, 'x'))
            if ok and k in ('fun',):
                return mk(Num('float'), TT('attr', t, 'fun'))
            return mk(Opq(), TT('attr', t, k) if ok else term)
        if a.hint == 'tup-idx':
            return mk(Arr('ndarray', frozenset(), 'i', (None,)), term)
        k2 = self.idx_kind(i, st)
        if k2 in ('mask', 'fancy'):
            return mk(Opq(), term)
        return mk(Opq(a.roots), term)

    def dtype_arg(self, v):
        if v is None:
            return None
        a = v.single()
        n = None
        if isinstance(a, Ext):
            n = a.name.split('.')[-1]
        elif isinstance(a, Const) and isinstance(a.v, str):
            n = a.v
        elif isinstance(a, Const) and a.v is None:
            return None
        elif isinstance(a, Opq) and isinstance(a.hint, str) and a.hint.startswith('dtype:'):
            return a.hint[6:]
        if n is None:
            return 'o'
        if n.startswith(('float', 'double', 'single', 'half', 'f8', 'f4', 'npy_float')):
            return 'f'
        if n.startswith(('int', 'uint', 'i8', 'i4', 'long')):
            return 'i'
        if n.startswith('bool'):
            return 'b'
        return 'o'

    # ------------------------------------------------------------- external calls
    def deps(self, args, kw):
        d = NOD
        for v in args:
            d |= v.deps
        for v in kw.values():
            d |= v.deps
        return d

    def call(self, name, args, kw, st, node, cx, starkw=None):
        ip = self.ip
        name = self.canon(name)
        ip.emit('ext', name=name, args=args, kw=kw, st=st, node=node, cx=cx, starkw=starkw)
        deps = self.deps(args, kw)
        if starkw is not None:
            deps = deps | starkw.deps
        r = None
        if name.startswith('builtins.'):
            r = self.builtin(name[9:], args, kw, st, node, cx, starkw)
        elif name.startswith('numpy.random.') or name.startswith(('random.', 'libc.stdlib.')):
            r = self.rng(name, args, kw, st, node, cx)
        elif name.startswith('numpy.'):
            r = self.numpy(name[6:], args, kw, st, node, cx)
        elif name.startswith('scipy.stats.'):
            if name.endswith(('pdf', 'cdf', 'ppf', 'sf', 'isf')) and args and all(isinstance(a, StrA) for a in args[0].atoms()):
                ip.emit('misuse', what='a label is passed to %s' % name, st=st, node=node, cx=cx)
                ip.raise_ext('TypeError', st, node, cx)
                from .interp import Dead
                raise Dead()
            r = self.scipy_stats(name[12:], args, kw, st, node, cx)
        elif name in EW_F_OTHER:
            r = self.ewise(name, args, kw, 'f', st, node, cx)
        elif name.startswith('pandas.'):
            r = self.pandas(name[7:], args, kw, st, node, cx)
        else:
            r = self.misc(name, args, kw, st, node, cx)
        if r is None:
            self.callbacks(name, args, kw, st, node, cx)
            t = self.pure_term(name, args, kw)
            r = mk(Opq(frozenset(), 'ext:' + name), t)
        if deps:
            r = r.with_deps(deps)
        if name == 'pandas.DataFrame':
            r = self.labels(r, args, kw, st)
        elif name in ('numpy.sort', 'numpy.unique', 'numpy.flip', 'numpy.random.permutation', 'numpy.roll') and 'columns' in r.deps:
            r = r.with_deps({'reordered'})
        if 'raw' in r.deps and args and name in ('pandas.DataFrame', 'numpy.take', 'numpy.take_along_axis'):
            r = ip.realign(r, args[0], list(args[1:]) + list(kw.values()), st)
        return r

    def labels(self, r, args, kw, st):
        """what the columns and the index of a new frame are made of"""
        ip = self.ip
        data = args[0] if args else kw.get('data')
        d = set(r.deps)
        for n, pos, mark in (('columns', 2, 'col:'), ('index', 1, 'idx:')):
            v = kw.get(n) if n in kw else (args[pos] if len(args) > pos else None)
            if v is not None and any(a == Const(None) for a in v.atoms()):
                if len(v.atoms()) > 1:
                    continue
                v = None
            if v is not None:
                d = {x for x in d if not (isinstance(x, str) and x.startswith(mark))}
                d |= {mark + x for x in ip.deep_deps(v, st) if isinstance(x, str) and x[:4] not in ('col:', 'idx:')} | {mark + 'given'}
            elif data is not None and all(isinstance(a, Arr) and a.cls == 'ndarray' or isinstance(a, Ref) and ip.obj(st, a.oid) is not None
                                          and ip.obj(st, a.oid).kind == 'list' for a in data.atoms()):
                d = {x for x in d if not (isinstance(x, str) and x.startswith(mark))}
                d.add(mark + 'none')
        return V(r.alts, frozenset(d))

    def pure_term(self, name, args, kw):
        if name.split('.')[0] in ('numpy', 'scipy', 'builtins', 'math', 'statsmodels') and not name.endswith(('.rvs', 'minimize')):
            return TT(short(name), *([a.term() for a in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw)]))
        return None

    # ---- callbacks
    def min_args(self, a, st):
        ip = self.ip
        skip = 0
        while True:
            if isinstance(a, Bound):
                skip += 1
                a = a.fn
            elif isinstance(a, Partial):
                skip += len(a.args)
                a = a.fn
            elif isinstance(a, Wrapt):
                if a.wrapped is None:
                    return 1
                if a.inst is not None:
                    skip += 1
                a = a.wrapped.single()
            elif isinstance(a, Ref):
                o = ip.obj(st, a.oid)
                if o is not None and o.kind == 'inst' and o.cls is not None:
                    m = ip.lookup_cls(o.cls, '__call__', st)
                    if m is not None:
                        skip += 1
                        a = m.single()
                        continue
                return None
            elif isinstance(a, Fn):
                n = len(a.node.args.args) + len(a.node.args.posonlyargs)
                d = len(a.node.args.defaults)
                return max(n - d - skip, 0 if n - skip <= 0 else 1)
            else:
                return None

    def callables(self, v, st, depth=0):
        out = []
        if v is None or depth > 3:
            return out
        for a, t in v.alts:
            if isinstance(a, (Fn, Bound, Partial, Wrapt)):
                if isinstance(a, Partial) and isinstance(a.fn, Ext):
                    continue
                if isinstance(a, Bound) and not isinstance(a.fn, (Fn, Wrapt)):
                    continue
                out.append((a, t))
            elif isinstance(a, Ref):
                o = self.ip.obj(st, a.oid)
                if o is None:
                    continue
                if o.kind == 'inst':
                    if o.cls is not None and self.ip.lookup_cls(o.cls, '__call__', st) is not None:
                        out.append((a, t))
                elif o.kind in ('list', 'dict', 'iter', 'set') and depth < 3:
                    for x in list(o.elts or ()) + list((o.keys or {}).values()) + ([o.elem] if o.elem is not None else []):
                        out += self.callables(x, st, depth + 1)
            elif isinstance(a, Tup):
                for x in a.elts:
                    out += self.callables(x, st, depth + 1)
        return out

    def callbacks(self, name, args, kw, st, node, cx, argv=None, only=None):
        if name in NOCALLBACK:
            return []
        res = []
        fs = []
        for v in list(args) + [kw[k] for k in sorted(kw)]:
            fs += self.callables(v, st)
        for a, t in fs:
            n = self.min_args(a, st)
            if n is None:
                continue
            for rep in range(2):
                s = st.copy()
                try:
                    if argv is not None:
                        av = list(argv(s))
                    elif name.split('.')[-1] in ('brentq', 'quad', 'bisect', 'newton', 'root_scalar', 'minimize_scalar', 'brent', 'brenth', 'ridder',
                                                 'toms748', 'fixed_quad', 'romberg', 'golden', 'quadrature', 'derivative'):
                        av = [mk(Num('float'), T('sym', 'cbarg', id(node), cx.ctx, rep))]
                    elif name.split('.')[-1] in ('minimize', 'fmin', 'differential_evolution', 'basinhopping', 'root', 'fsolve', 'approx_fprime', 'least_squares',
                                                 'fmin_slsqp', 'shgo', 'dual_annealing'):
                        av = [mk(Arr('ndarray', {('cbx', id(node), cx.ctx)}, 'f', (None,)), T('sym', 'cbarg', id(node), cx.ctx, rep))]
                    elif name.split('.')[-1] in ('apply_along_axis',):
                        av = [mk(Arr('ndarray', frozenset(), 'o', (None,)))]
                    else:
                        av = [mk(Opq(), T('sym', 'cbarg', id(node), cx.ctx, rep, i)) for i in range(n)]
                    if len(av) < n:
                        av += [mk(Opq())] * (n - len(av))
                    res.append(self.ip.call_atom(a, t, av[:max(n, len(av))], {}, s, node, cx))
                    st.assign(self.ip.join(st.copy(), s))
                except Exception as e:  # Dead
                    if type(e).__name__ != 'Dead':
                        raise
        return res

    # ---- elementwise
    def ewise(self, name, args, kw, dt, st, node, cx):
        """elementwise function: dt 'f' / 'b' / 'same'"""
        ip = self.ip
        if len(args) == 1 and not kw and 1 < len(args[0].alts) <= 8 and args[0].term() is None and all(t is not None for _, t in args[0].alts):
            return joinall([self.ewise(name, [V([x], args[0].deps)], kw, dt, st, node, cx) for x in sorted(args[0].alts, key=repr)])
        term = TT(short(name), *([a.term() for a in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw) if k not in ('out', 'casting')]))
        out = []
        f = FOLD.get(name)
        if f is not None and not kw and args:
            cs = [v.const() for v in args]
            if all(o and isinstance(c, (int, float)) for o, c in cs):
                try:
                    return const(f(*[c for _, c in cs]))
                except (ValueError, OverflowError, TypeError, ZeroDivisionError):
                    pass
        infos = [[self.info(a, st) for a, _ in v.alts] for v in args[:3]]
        if not infos:
            return mk(Opq())
        if 'out' in kw and not (kw['out'].const()[0] and kw['out'].const()[1] is None):
            ip.mutate(kw['out'], 'out= argument', st, node, cx)
            ip.emit('outarg', value=kw['out'], dt=dt, st=st, node=node, cx=cx)
            return kw['out']
        if name in ('numpy.round', 'numpy.around', 'numpy.clip', 'numpy.isin'):
            infos = infos[:1]
        if name in ('numpy.isclose',):
            infos = infos[:2]
        scalar = all(x is not None and x[3] for l in infos for x in l)
        unknown = any(x is None for l in infos for x in l)
        opq = any(isinstance(a, Opq) for v in args[:len(infos)] for a, _ in v.alts)
        dts = [x[0] for l in infos for x in l if x is not None]
        d = dts[0] if dts else 'o'
        for x in dts[1:]:
            d = self.comb(d, x)
        if dt != 'same':
            d = dt
        if scalar:
            return self.scalar_of(d, term)
        arr = [x for l in infos for x in l if x is not None and not x[3]]
        has_arr = any(isinstance(a, (Arr, Tup, Ref)) for v in args[:len(infos)] for a, _ in v.alts)
        if unknown or (opq and not has_arr):
            return mk(Opq(), term)
        sh = None
        if all(len(l) == 1 for l in infos):
            sh = infos[0][0][1]
            for l in infos[1:]:
                sh = self.bshape(sh, l[0][1])
        shs = {sh}
        if not all(len(l) == 1 for l in infos):
            shs = {x[1] for x in infos[0]}
            for l in infos[1:]:
                shs = {self.bshape(x, y[1]) for x in shs for y in l}
            if len(shs) > 4 or None in shs:
                shs = {None}
            sh = min(shs, key=repr)
        cls = 'ndarray'
        for v in args[:len(infos)]:
            for a, _ in v.alts:
                if isinstance(a, Arr) and a.cls != 'ndarray':
                    cls = a.cls
        if len(shs) > 1:
            return joinall([self.fresh(cls, d, x, node, cx, term) if x != () else self.scalar_of(d, term) for x in sorted(shs, key=repr)])
        return self.fresh(cls, d, sh, node, cx, term)

    def axis_of(self, args, kw, pos):
        v = kw.get('axis')
        if v is None and len(args) > pos:
            v = args[pos]
        if v is None:
            return False, None, None
        ok, c = v.const()
        if ok and c is None:
            return False, None, None
        return True, (c if ok else None), v.term()

    def reduce(self, op, v, args, kw, st, node, cx, dt=None):
        """v: array value, args: remaining positional arguments"""
        has, ax, at = self.axis_of(args, kw, 0)
        t = v.term()
        keep = 'keepdims' in kw and kw['keepdims'].const()[1] is not False
        term = (TT('np.' + op, t, at) if has else TT('np.' + op, t))
        if keep:
            term = TT('keepdims', term)
        if 'out' in kw:
            self.ip.mutate(kw['out'], 'out= argument', st, node, cx)
        out = []
        for a, _ in v.alts:
            i = self.info(a, st)
            if i is None:
                out.append(mk(Opq(), term))
                continue
            d = dt or i[0]
            if op in ('sum', 'prod') and d == 'b':
                d = 'i'
            if i[3]:
                out.append(self.scalar_of(d, term))
                continue
            if isinstance(a, Arr) and a.cls == 'DataFrame' and not has and op not in ():
                out.append(self.fresh('Series', d, (a.shape[1] if a.shape else None,), node, cx, term))
                continue
            if not has:
                if keep:
                    out.append(self.fresh('ndarray', d, None, node, cx, term))
                else:
                    out.append(self.scalar_of(d, term))
                continue
            sh = None
            if i[1] is not None and isinstance(ax, int) and -len(i[1]) <= ax < len(i[1]):
                s = list(i[1])
                ax2 = ax % len(s)
                if keep:
                    s[ax2] = 1
                else:
                    del s[ax2]
                sh = tuple(s)
            if sh == ():
                out.append(self.scalar_of(d, term))
            else:
                cls = 'Series' if isinstance(a, Arr) and a.cls in ('DataFrame',) else 'ndarray'
                out.append(self.fresh(cls, d, sh, node, cx, term))
        return joinall(out) if out else mk(Opq(), term)

    def shape_arg(self, v, st):
        """shape from a numpy shape argument"""
        if v is None:
            return None
        a = v.single()
        if isinstance(a, Const) and isinstance(a.v, int):
            return (a.v,)
        if isinstance(a, Num):
            return (v.term(),)
        ex = self.ip.exact_elems(a, st) if a is not None else None
        if ex is None:
            return None
        out = []
        for e in ex:
            ok, c = e.const()
            out.append(c if ok and isinstance(c, int) else e.term())
        return tuple(out)

    def view_of(self, fn, v, args, kw, st, node, cx, cls='ndarray'):
        """asarray / ravel / reshape ...: the result may share memory with v"""
        dt = self.dtype_arg(kw.get('dtype') or (args[0] if fn in ('asarray', 'asanyarray', 'array') and args else None))
        out = []
        for a, t in v.alts:
            term = t
            if fn in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'require', 'asarray_chkfinite'):
                term = TT('np.asarray', t) if not (isinstance(a, Arr) and a.cls == 'ndarray') and not isinstance(a, (Const, Num)) else t
                if isinstance(a, Ref) and a.oid in self.ip.term_shapes:
                    term = TT('stack', self.ip.term_shapes[a.oid])
            elif fn != 'matrix':
                term = TT('np.' + fn, t, *[x.term() for x in args])
            i = self.info(a, st)
            if i is None and isinstance(a, Const) and (a.v is None or isinstance(a.v, str)) and fn in ('asarray', 'asanyarray'):
                out.append(mk(Arr('ndarray', {self.ip.fresh_root(node, cx)}, 'o', ()), term))
                continue
            if i is None:
                out.append(mk(Opq(), term))
                continue
            d, sh, roots, scalar = i
            if isinstance(a, (Tup, Ref)):
                roots = frozenset()
            if dt is not None and fn in ('asarray', 'asanyarray', 'array', 'ascontiguousarray'):
                nd = dt
                if nd == 'o':
                    nd = d
                if d not in (nd, 'u', 'o'):
                    roots = frozenset()   # conversion copies
                d = nd
            if not roots:
                roots = frozenset({self.ip.fresh_root(node, cx)})
            if fn in ('ravel',):
                sh = (None,) if sh is None or len(sh) != 1 else sh
            elif fn == 'reshape':
                sv = args if len(args) != 1 else None
                s2 = self.shape_arg(args[0], st) if sv is None and args else None
                if sv:
                    s2 = []
                    for x in sv:
                        ok, c = x.const()
                        s2.append(c if ok and isinstance(c, int) else x.term())
                if s2 is not None:
                    sh = tuple(None if isinstance(x, int) and x < 0 else x for x in s2)
                else:
                    sh = None
            elif fn == 'transpose':
                sh = tuple(reversed(sh)) if sh is not None and not args else None
            elif fn == 'squeeze' and sh is not None:
                ax = args[0] if args else kw.get('axis')
                if ax is not None and not (ax.const()[0] and ax.const()[1] is None):
                    k = ax.const()[1] if ax.const()[0] else None
                    sh = tuple(x for i, x in enumerate(sh) if i != k % len(sh)) if type(k) is int and sh and -len(sh) <= k < len(sh) else None
                else:
                    if any(not isinstance(x, int) for x in sh):
                        # axes of unknown length may turn out to be one
                        out.append(mk(Arr(cls, roots, d, tuple(x for x in sh if isinstance(x, int) and x != 1)), term))
                    sh = tuple(x for x in sh if not isinstance(x, int) or x != 1)
            elif fn in ('squeeze', 'expand_dims', 'swapaxes', 'broadcast_to', 'diagonal', 'moveaxis', 'rollaxis', 'rot90'):
                sh = None
            elif fn == 'atleast_1d':
                sh = (1,) if sh == () else sh
            elif fn == 'atleast_2d' and sh is not None:
                sh = (1,) * (2 - len(sh)) + sh if len(sh) < 2 else sh
            elif fn in ('matrix', 'asmatrix'):
                sh = sh if sh is not None and len(sh) == 2 else None
            out.append(mk(Arr(cls, roots, d, sh), term))
        return joinall(out) if out else mk(Opq())

    def numpy(self, fn, args, kw, st, node, cx):
        ip = self.ip
        name = 'numpy.' + fn
        if fn in EW_F:
            return self.ewise(name, args, kw, 'f', st, node, cx)
        if fn in EW_B:
            return self.ewise(name, args, kw, 'b', st, node, cx)
        if fn in EW_SAME:
            t = self.ewise(name, args, kw, 'same', st, node, cx)
            return t
        if fn in EW_FLOOR:
            return self.ewise(name, args, kw, 'same', st, node, cx)
        if fn in RED and args:
            return self.reduce(fn, args[0], args[1:], kw, st, node, cx, RED[fn])
        if fn in INPLACE_FN and args:
            ip.mutate(args[0], 'np.%s' % fn, st, node, cx)
            return NONE
        if fn in VIEW and args:
            if fn in ('matrix', 'asmatrix'):
                return self.view_of(fn, args[0], args[1:], kw, st, node, cx)
            return self.view_of(fn, args[0], args[1:], kw, st, node, cx)
        if fn == 'array' and args:
            cp = kw.get('copy')
            if cp is not None and cp.const() != (True, True):
                return self.view_of('asarray', args[0], args[1:], kw, st, node, cx)
            return self.copy_of(args[0], args[1:], kw, st, node, cx)
        if fn in ('copy',) and args:
            return self.copy_of(args[0], [], kw, st, node, cx)
        if fn in ('zeros', 'ones', 'empty', 'full', 'identity', 'eye', 'ndarray'):
            dv = kw.get('dtype')
            if dv is None and fn in ('zeros', 'ones', 'empty', 'ndarray') and len(args) > 1:
                dv = args[1]
            d = self.dtype_arg(dv) or 'f'
            s = self.shape_arg(args[0] if args else kw.get('shape') or kw.get('n') or kw.get('N'), st)
            if fn in ('identity', 'eye') and s is not None and len(s) == 1:
                s = (s[0], s[0])
                if fn == 'eye' and len(args) > 1:
                    s = None
            term = TT('np.' + fn, *[a.term() for a in args[:2]])
            if fn == 'full':
                dv = kw.get('dtype') or (args[2] if len(args) > 2 else None)
                d = self.dtype_arg(dv)
                if d is None:
                    fv = args[1] if len(args) > 1 else kw.get('fill_value')
                    i = self.info(fv.single(), st) if fv is not None and fv.single() is not None else None
                    d = i[0] if i else 'o'
            return self.fresh('ndarray', d, s, node, cx, term)
        if fn in ('zeros_like', 'ones_like', 'empty_like', 'full_like') and args:
            dv = kw.get('dtype')
            if dv is None and len(args) > (2 if fn == 'full_like' else 1):
                dv = args[2 if fn == 'full_like' else 1]
            dt = self.dtype_arg(dv)
            out = []
            for a, t in args[0].alts:
                i = self.info(a, st)
                d = dt or (i[0] if i else 'o')
                cls = a.cls if isinstance(a, Arr) and a.cls != 'ndarray' else 'ndarray'
                fv = args[1].term() if fn == 'full_like' and len(args) > 1 else None
                term = TT('np.' + fn, t, fv) if fn == 'full_like' else TT('np.' + fn, t)
                if i is not None and i[3]:
                    out.append(self.fresh('ndarray', d, (), node, cx, term))
                else:
                    out.append(self.fresh(cls, d, i[1] if i else None, node, cx, term))
            return joinall(out)
        if fn in ('arange', 'linspace', 'logspace', 'geomspace'):
            d = 'f'
            n = None
            if fn == 'arange':
                dd = [self.info(a, st) for v in args for a, _ in v.alts]
                d = 'i' if all(x is not None and x[0] in ('i', 'b') for x in dd) else ('f' if any(x and x[0] == 'f' for x in dd) else 'o')
                if len(args) == 1:
                    ok, c = args[0].const()
                    n = c if ok and isinstance(c, int) else args[0].term()
            else:
                nv = args[2] if len(args) > 2 else kw.get('num')
                if nv is not None:
                    ok, c = nv.const()
                    n = c if ok and isinstance(c, int) else nv.term()
                else:
                    n = 50
            if kw.get('dtype') is not None:
                d = self.dtype_arg(kw['dtype']) or d
            return self.fresh('ndarray', d, (n,), node, cx, TT('np.' + fn, *[a.term() for a in args]))
        if fn == 'where':
            if len(args) == 3:
                r = self.ewise(name, args[1:], {}, 'same', st, node, cx)
                term = TT('np.where', *[a.term() for a in args])
                sh = None
                c = args[0].single()
                a = r.single()
                if isinstance(a, Arr):
                    ci = self.info(c, st) if c is not None else None
                    return mk(a.rep(shape=self.bshape(a.shape, ci[1]) if ci else None), term)
                if isinstance(c, Arr):
                    i = self.info(a, st) if a is not None else None
                    return self.fresh('ndarray', i[0] if i else 'o', c.shape, node, cx, term)
                return mk(a if a is not None else Opq(), term)
            return mk(Tup([self.fresh('ndarray', 'i', (None,), node, cx)]))
        if fn in CUM and args:
            out = []
            ta = [a.term() for a in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw) if k not in ('dtype',)]
            term = TT('np.' + fn, *ta)
            for a, t in args[0].alts:
                i = self.info(a, st)
                d = 'i' if fn == 'argsort' else (i[0] if i else 'o')
                sh = i[1] if i and fn not in ('diff', 'tile', 'repeat', 'unique') else None
                if fn in ('repeat', 'tile') and i is not None and i[1] is not None and len(i[1]) <= 1 and len(args) > 1 and 'axis' not in kw:
                    ok, c = args[1].const()
                    n0 = i[1][0] if i[1] else 1
                    if ok and isinstance(c, int) and isinstance(n0, int):
                        sh = (c * n0,)
                    elif n0 == 1:
                        sh = (args[1].term(),)
                    else:
                        sh = (None,)
                out.append(self.fresh('ndarray', d, sh, node, cx, term))
            if fn == 'unique' and any(k.startswith('return_') for k in kw):
                return mk(Opq())
            return joinall(out) if out else None
        if fn in ('vstack', 'hstack', 'stack', 'concatenate', 'column_stack', 'dstack', 'append', 'block', 'r_', 'c_', 'insert', 'delete', 'pad'):
            term = TT('np.' + fn, *[a.term() for a in args])
            d = 'o'
            if args:
                a = args[0].single()
                i = self.info(a, st) if a is not None else None
                if i is not None:
                    d = i[0]
                if fn == 'append' and len(args) > 1:
                    j = self.info(args[1].single(), st) if args[1].single() is not None else None
                    d = self.comb(d, j[0]) if j else 'o'
            sh = None
            if fn in ('append', 'hstack') and 'axis' not in kw:
                sh = (None,)
            elif fn in ('column_stack', 'vstack'):
                sh = (None, None)
            return self.fresh('ndarray', d, sh, node, cx, term)
        if fn in ('diag', 'diagflat') and args:
            out = []
            for a, t in args[0].alts:
                i = self.info(a, st)
                sh = None
                if i and i[1] is not None:
                    sh = (i[1][0], i[1][0]) if len(i[1]) == 1 else (i[1][0],) if len(i[1]) == 2 else None
                # a diagonal read is a read-only view: treated as a copy
                out.append(self.fresh('ndarray', i[0] if i else 'o', sh, node, cx, TT('np.diag', t)))
            return joinall(out)
        if fn in ('dot', 'matmul', 'inner', 'outer', 'kron', 'cross', 'einsum', 'cov', 'corrcoef', 'interp', 'histogram', 'polyval', 'take_along_axis', 'take',
                  'choose', 'select', 'searchsorted', 'digitize', 'bincount', 'nonzero', 'flatnonzero', 'convolve', 'trace', 'apply_along_axis', 'lexsort',
                  'meshgrid', 'indices', 'triu_indices', 'tril_indices', 'diag_indices', 'triu_indices_from', 'tril_indices_from', 'ix_', 'fromiter', 'nan_to_num'):
            self.callbacks(name, args, kw, st, node, cx)
            term = TT('np.' + fn, *([a.term() for a in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw)]))
            if fn in ('triu_indices', 'tril_indices', 'diag_indices', 'triu_indices_from', 'tril_indices_from', 'nonzero', 'meshgrid', 'ix_', 'histogram'):
                return mk(Opq(frozenset(), 'tup-idx' if 'indices' in fn else None), term)
            d = 'f' if fn in ('cov', 'corrcoef', 'interp') else ('i' if fn in ('searchsorted', 'digitize', 'bincount', 'flatnonzero', 'lexsort') else 'o')
            if fn in ('dot', 'matmul', 'outer', 'inner') and len(args) > 1:
                i, j = self.info(args[0].single(), st) if args[0].single() else None, self.info(args[1].single(), st) if args[1].single() else None
                d = self.comb(i[0], j[0]) if i and j else 'o'
            return self.fresh('ndarray', d, None, node, cx, term)
        if fn.startswith('linalg.'):
            f = fn[7:]
            term = TT('np.' + fn, *([a.term() for a in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw)]))
            if f in ('det', 'cond', 'matrix_rank'):
                return mk(Num('float'), term)
            if f == 'norm':
                return mk(Num('float'), term)
            if f in ('eig', 'eigh', 'svd', 'qr', 'slogdet', 'lstsq'):
                n = {'eig': 2, 'eigh': 2, 'svd': 3, 'qr': 2, 'slogdet': 2, 'lstsq': 4}[f]
                return mk(Tup([self.fresh('ndarray', 'f', None, node, cx, TT('item', term, cterm(i)), i) for i in range(n)]), term)
            sh = None
            if args and args[0].single() is not None and f in ('inv', 'cholesky', 'pinv'):
                i = self.info(args[0].single(), st)
                sh = i[1] if i else None
            return self.fresh('ndarray', 'f', sh, node, cx, term)
        if fn in ('finfo', 'iinfo'):
            return mk(Opq(frozenset(), 'inst:finfo'), TT('np.' + fn, T('const', 'float')))
        if fn in ('isscalar',) and args:
            r = None
            rs = set()
            for a, _ in args[0].alts:
                if isinstance(a, (Const, Num, StrA)):
                    rs.add(not (isinstance(a, Const) and a.v is None))
                elif isinstance(a, (Arr, Tup, Ref)):
                    rs.add(False)
                else:
                    rs.add(None)
            if len(rs) == 1 and None not in rs:
                return const(rs.pop())
            return mk(Num('bool'), TT('np.isscalar', args[0].term()))
        if fn in ('ndim', 'size', 'shape') and args:
            out = []
            for a, t in args[0].alts:
                if isinstance(a, Arr):
                    v = self.arr_attr(a, t, fn, st, node, cx)
                    out.append(v if v is not None else ANY)
                    continue
                i = self.info(a, st)
                if i is not None and i[1] is not None:
                    if fn == 'ndim':
                        out.append(const(len(i[1])))
                        continue
                    if fn == 'size' and all(isinstance(d, int) for d in i[1]):
                        n = 1
                        for d in i[1]:
                            n *= d
                        out.append(const(n))
                        continue
                    if fn == 'shape':
                        out.append(mk(Tup([self.dim_value(d) for d in i[1]])))
                        continue
                out.append(mk(Num('int'), TT('attr', t, fn)) if fn != 'shape' else mk(Opq(frozenset(), 'shape'), TT('attr', t, 'shape')))
            return joinall(out)
        if fn in ('allclose', 'array_equal', 'may_share_memory', 'shares_memory', 'iterable'):
            return mk(Num('bool'), TT('np.' + fn, *[a.term() for a in args]))
        if fn in ('seterr', 'seterrcall', 'set_printoptions', 'setbufsize'):
            ip.emit('globset', name='numpy.' + fn, st=st, node=node, cx=cx, value=None)
            return mk(Opq())
        if fn in ('errstate', 'printoptions'):
            return mk(Opq(frozenset(), 'ext:numpy.errstate'))
        if fn in ('float64', 'float32', 'float', 'double', 'longdouble'):
            return ip.as_num(args[0], 'float') if args and all(isinstance(a, (Num, Const)) for a, _ in args[0].alts) else mk(Opq())
        if fn in ('int64', 'int32', 'int_'):
            return ip.as_num(args[0], 'int') if args and all(isinstance(a, (Num, Const)) for a, _ in args[0].alts) else mk(Opq())
        if fn in ('vectorize', 'frompyfunc'):
            return mk(Partial(Ext('numpy.$vectorized'), (args[0],) if args else (), ()))
        if fn == '$vectorized':
            self.callbacks(name, args[:1], {}, st, node, cx)
            return self.fresh('ndarray', 'o', None, node, cx)
        if fn == 'triu' or fn == 'tril':
            pass
        if 'out' in kw:
            ip.mutate(kw['out'], 'out= argument', st, node, cx)
        return None

    def copy_of(self, v, args, kw, st, node, cx):
        dt = self.dtype_arg(kw.get('dtype') or (args[0] if args else None))
        out = []
        for a, t in v.alts:
            i = self.info(a, st)
            term = TT('np.asarray', t) if not (isinstance(a, Arr) and a.cls == 'ndarray') and not isinstance(a, (Const, Num)) else t
            if isinstance(a, Ref) and a.oid in self.ip.term_shapes:
                term = TT('stack', self.ip.term_shapes[a.oid])
            if i is None:
                out.append(mk(Opq(), term))
                continue
            d = i[0] if dt is None or dt == 'o' else dt
            out.append(self.fresh('ndarray', d, i[1], node, cx, term))
        return joinall(out) if out else mk(Opq())

    # ---- rng
    def rng_desc(self, v):
        """what an explicit generator/seed argument denotes"""
        if v is None:
            return 'global'
        ok, c = v.const()
        if ok and c is None:
            return 'global'
        if 'seed' in v.deps:
            return 'seed'
        a = v.single()
        if isinstance(a, Opq) and isinstance(a.hint, str) and a.hint.startswith('rng:'):
            return a.hint[4:]
        if any(isinstance(x, Const) and x.v is None for x in v.atoms()):
            return 'global'
        if ok:
            return 'const'
        return 'other'

    def draw(self, name, gen, st, node, cx, shape=None, dtype='f'):
        self.ip.emit('rng', op='draw', gen=gen, name=name, st=st, node=node, cx=cx)
        v = self.fresh('ndarray', dtype, shape, node, cx)
        return v.with_deps({'rng'})

    def rng(self, name, args, kw, st, node, cx):
        ip = self.ip
        fn = name.split('.')[-1]
        if name.startswith('libc.stdlib.'):
            if fn == 'rand':
                ip.emit('rng', op='draw', gen='libc', name=name, st=st, node=node, cx=cx)
                return mk(Num('int'), None, frozenset({'rng'}))
            if fn == 'srand':
                ip.emit('rng', op='seed', gen='libc', name=name, st=st, node=node, cx=cx, value=args[0] if args else None)
                return NONE
            if fn == 'RAND_MAX':
                return mk(Num('int'))
            return None
        py = name.startswith('random.')
        if fn == 'seed':
            v = args[0] if args else kw.get('seed')
            ip.emit('rng', op='seed', gen='python' if py else 'global', name=name, st=st, node=node, cx=cx, value=v)
            d = 'none' if v is None or v.const() == (True, None) else ('seed' if 'seed' in v.deps else ('const' if v.const()[0] else 'other'))
            if not py:
                st.set_facet('rng', {d})
            return NONE
        if fn in ('RandomState', 'default_rng', 'Generator', 'PCG64', 'SeedSequence', 'MT19937', 'Random'):
            v = args[0] if args else kw.get('seed')
            if v is None or v.const() == (True, None):
                d = 'entropy'
            else:
                d = self.rng_desc(v)
                if d == 'global':
                    d = 'entropy'
            ip.emit('rng', op='new', gen=d, name=name, st=st, node=node, cx=cx, value=v)
            return mk(Opq(frozenset(), 'rng:' + d), None, frozenset({'seed'}) if d == 'seed' else NOD)
        if fn in ('get_state', 'getstate'):
            return mk(Opq(frozenset(), 'rngstate'))
        if fn in ('set_state', 'setstate'):
            ip.emit('rng', op='seed', gen='global', name=name, st=st, node=node, cx=cx, value=args[0] if args else None)
            a = args[0].single() if args else None
            st.set_facet('rng', {'restored' if isinstance(a, Opq) and a.hint == 'rngstate' else 'other'})
            return NONE
        if fn == 'shuffle' and args:
            ip.mutate(args[0], 'random shuffle', st, node, cx)
        size = kw.get('size')
        sh = self.shape_arg(size, st) if size is not None else None
        if fn in ('uniform', 'normal', 'gamma', 'beta') and len(args) > 2:
            sh = self.shape_arg(args[2], st)
        elif fn in ('exponential', 'chisquare', 'standard_gamma') and len(args) > 1:
            sh = self.shape_arg(args[1], st)
        elif fn in ('standard_exponential', 'standard_normal', 'random', 'random_sample') and args:
            sh = self.shape_arg(args[0], st)
        elif fn == 'rand' or fn == 'randn':
            o = []
            for a in args:
                ok, c = a.const()
                o.append(c if ok else a.term())
            sh = tuple(o)
        return self.draw(name, 'python' if py else 'global', st, node, cx, sh, 'i' if fn in ('randint', 'integers', 'poisson', 'permutation') else 'f')

    def scipy_stats(self, fn, args, kw, st, node, cx):
        parts = fn.split('.')
        term = TT('scipy.stats.' + fn, *([a.term() for a in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw)]))
        if fn == 'rankdata':
            a = args[0].single() if args else None
            how = args[1] if len(args) > 1 else kw.get('method')
            if how is not None:
                k = [isinstance(x, Const) and x.v not in ('average', 'min', 'max', 'dense', 'ordinal') for x in how.atoms()]
                if any(k):
                    self.ip.raise_ext('ValueError', st, node, cx)
                if k and all(k):
                    from .interp import Dead
                    raise Dead()
            i = self.info(a, st) if a is not None else None
            return self.fresh('ndarray', 'f', i[1] if i else None, node, cx, term)
        if len(parts) >= 2:
            m = parts[-1]
            if m == 'rvs':
                pos = args[3] if parts[0] == 'multivariate_normal' and len(args) > 3 else None
                g = self.rng_desc(kw.get('random_state', pos))
                sz = kw.get('size', args[2] if parts[0] == 'multivariate_normal' and len(args) > 2 else None)
                if parts[0] == 'multivariate_normal' and sz is not None:
                    sh = self.shape_arg(sz, st)
                    cov = kw.get('cov', args[1] if len(args) > 1 else None)
                    i = self.info(cov.single(), st) if cov is not None and cov.single() is not None else None
                    if sh is not None and len(sh) == 1 and i is not None and i[1] is not None and len(i[1]) == 2:
                        # scipy drops the axes of length one
                        d = i[1][-1]
                        row, many = (d,), (sh[0], d)
                        if isinstance(sh[0], int):
                            return self.draw('scipy.stats.' + fn, g, st, node, cx, row if sh[0] == 1 else many)
                        return joinv(self.draw('scipy.stats.' + fn, g, st, node, cx, many), self.draw('scipy.stats.' + fn, g, st, node, cx, row))
                    return self.draw('scipy.stats.' + fn, g, st, node, cx, None)
                return self.draw('scipy.stats.' + fn, g, st, node, cx, self.shape_arg(sz, st) if sz is not None and 'multivariate' not in fn else None)
            if m in ('pdf', 'cdf', 'logpdf', 'logcdf', 'ppf', 'sf', 'isf', 'logsf', 'pmf', 'logpmf'):
                if 'multivariate' in parts[0]:
                    i = self.info(args[0].single(), st) if args and args[0].single() is not None else None
                    sh = tuple(i[1][:-1]) if i and i[1] is not None and len(i[1]) == 2 else None
                    return self.fresh('ndarray', 'f', sh, node, cx, term)
                r = self.ewise('scipy.stats.' + fn, args[:1] + args[1:], {}, 'f', st, node, cx)
                return joinall([mk(a, term) for a in r.atoms()])
            if m == 'fit':
                return mk(Opq(frozenset(), 'ext:fit'), term)
            if m in ('mean', 'std', 'var', 'median', 'entropy'):
                return mk(Num('float'), term)
            if m in ('freeze',):
                return mk(Opq(frozenset(), 'inst:rv_frozen'), term)
        if fn in ('kendalltau', 'spearmanr', 'pearsonr', 'kstest', 'ks_2samp', 'linregress', 'ttest_ind'):
            return mk(Opq(frozenset(), 'statres'), term)
        if len(parts) == 1 and not fn[:1].isupper() and fn not in ('rankdata',):
            # frozen distribution
            if args or kw or True:
                self.callbacks('scipy.stats.' + fn, args, kw, st, node, cx)
                return mk(Opq(frozenset(), 'inst:rv_frozen'), term)
        return None

    def pandas(self, fn, args, kw, st, node, cx):
        term = TT('pandas.' + fn, *([a.term() for a in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw)]))
        if fn in ('DataFrame', 'Series'):
            v = args[0] if args else kw.get('data')
            if v is None:
                return self.fresh(fn, 'o', None, node, cx, term)
            out = []
            cp = kw.get('copy')
            for a, t in v.alts:
                i = self.info(a, st)
                if isinstance(a, Ref):
                    i = None if self.ip.obj(st, a.oid) is None or self.ip.obj(st, a.oid).kind == 'dict' else i
                if i is None:
                    out.append(self.fresh(fn, 'o', None, node, cx, term))
                    continue
                sh = i[1] if i[1] is not None and (fn == 'Series' or len(i[1]) == 2) else None
                roots = i[2] if isinstance(a, Arr) and not (cp is not None and cp.const()[1] is True) else frozenset()
                out.append(mk(Arr(fn, roots or {self.ip.fresh_root(node, cx)}, i[0], sh), term))
            r = joinall(out)
            return r
        if fn in ('read_csv', 'read_parquet', 'read_json'):
            return self.fresh('DataFrame', 'o', None, node, cx)
        if fn == 'concat':
            return self.fresh('DataFrame', 'o', None, node, cx, term)
        if fn in ('isna', 'isnull', 'notna', 'notnull') and args:
            return self.ewise('pandas.' + fn, args, kw, 'b', st, node, cx)
        if fn.startswith(('set_option', 'options.')):
            self.ip.emit('globset', name='pandas.' + fn, st=st, node=node, cx=cx, value=None)
        return None

    def misc(self, name, args, kw, st, node, cx):
        ip = self.ip
        if name == 'warnings.warn':
            ip.emit('warn', st=st, node=node, cx=cx, args=args)
            return NONE
        if name in ('warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings'):
            if 'in' not in st.facets.get('catchw', ()) or len(st.facets.get('catchw', ())) > 1:
                ip.emit('globset', name=name, st=st, node=node, cx=cx, value=None)
            return NONE
        if name == 'warnings.catch_warnings':
            return mk(Opq(frozenset(), 'ext:warnings.catch_warnings'))
        if name.endswith('optimize.minimize') or name == 'scipy.optimize.minimize':
            self.callbacks(name, args, kw, st, node, cx)
            return mk(Opq(frozenset(), 'optresult'), T('sym', 'optres', id(node), cx.ctx))
        if name in ('scipy.optimize.brentq', 'scipy.optimize.bisect', 'scipy.optimize.newton'):
            self.callbacks(name, args, kw, st, node, cx)
            return mk(Num('float'), TT(name, *[a.term() for a in args]))
        if name == 'scipy.optimize.minimize_scalar':
            self.callbacks(name, args, kw, st, node, cx)
            return mk(Opq(frozenset(), 'optresult'), T('sym', 'optres', id(node), cx.ctx))
        if name == 'scipy.integrate.quad':
            self.callbacks(name, args, kw, st, node, cx)
            return mk(Tup([mk(Num('float')), mk(Num('float'))]))
        if name == 'scipy.interpolate.interp1d':
            return mk(Opq(frozenset(), 'inst:interp1d'))
        if name.startswith('scipy.linalg.'):
            return self.fresh('ndarray', 'f', None, node, cx, TT(name, *[a.term() for a in args]))
        if name == 'statsmodels.stats.correlation_tools.cov_nearest':
            return self.fresh('ndarray', 'f', None, node, cx, TT(name, *[a.term() for a in args]))
        if name == 'functools.partial' and args:
            a = args[0].single()
            if a is not None:
                return mk(Partial(a, tuple(args[1:]), tuple(sorted(kw.items(), key=lambda x: x[0]))))
            return None
        if name == 'functools.reduce' and args:
            ex, el, _ = ip.iterate(args[1], st, node, cx) if len(args) > 1 else (None, ANY, True)
            acc = args[2] if len(args) > 2 else (ex[0] if ex else el)
            items = (ex if len(args) > 2 else ex[1:]) if ex is not None and len(ex) <= 12 else [el, el]
            for x in items:
                acc2 = ip.call_value(args[0], [acc, x], {}, st, node, cx)
                acc = acc2 if ex is not None else joinv(acc, acc2)
            return acc
        if name == 'functools.wraps':
            return mk(Opq(frozenset(), 'ext:functools.wraps'))
        if name == 'inspect.getfullargspec' and args:
            return self.argspec(args[0], st, node, cx)
        if name == 'inspect.signature' and args:
            return self.signature(args[0], st, node, cx)
        if name in ('copy.copy', 'copy.deepcopy') and args:
            return self.deepcopy(args[0], st, node, cx, name.endswith('deepcopy'))
        if name.startswith('itertools.'):
            return self.itertools(name[10:], args, kw, st, node, cx)
        if name == 'operator.itemgetter':
            return mk(Opq())
        if name == 'collections.defaultdict':
            return ip.alloc(st, Obj('dict', keys={}, exact=False, elem=ANY), node, cx)
        if name in ('collections.OrderedDict', 'typing.cast', 'collections.Counter'):
            if name == 'typing.cast' and len(args) > 1:
                return args[1]
            if name == 'collections.OrderedDict':
                return self.builtin('dict', args, kw, st, node, cx, None)
            return mk(Opq())
        if name.startswith('typing.'):
            return mk(Opq(frozenset(), 'ext:' + name))
        if name.startswith('math.'):
            return self.ewise(name, args, kw, 'f', st, node, cx)
        if name in ('sys.stdout.write', 'sys.stderr.write', 'sys.stdout.flush', 'logging.info', 'logging.warning', 'logging.debug', 'pprint.pprint'):
            ip.emit('print', st=st, node=node, cx=cx, name=name)
            return mk(Opq())
        if name.startswith('logging.'):
            return mk(Opq(frozenset(), 'logger'))
        if name.startswith('sklearn.'):
            g = self.rng_desc(kw.get('random_state'))
            self.callbacks(name, args, kw, st, node, cx)
            if name.split('.')[-1] in ('KMeans', 'MiniBatchKMeans', 'GaussianMixture', 'k_means', 'kmeans_plusplus'):
                ip.emit('rng', op='draw', gen=g, name=name, st=st, node=node, cx=cx)
            return mk(Opq(frozenset(), 'ext:' + name))
        if name.startswith('__ccast__') or name == '__ccast__':
            return ip.ctype_value(str(args[0].const()[1]), args[1], node, cx) if len(args) > 1 else mk(Opq())
        if name in ('os.environ.__setitem__', 'os.putenv', 'os.chdir', 'os.umask', 'sys.setrecursionlimit', 'os.unsetenv'):
            ip.emit('globset', name=name, st=st, node=node, cx=cx, value=None)
            return NONE
        if name == 'cython.parallel.prange':
            return self.builtin('range', args[:3], {}, st, node, cx, None)
        if name == 'concurrent.futures.ProcessPoolExecutor' or name.endswith(('.Pool', 'ThreadPoolExecutor')):
            return mk(Opq(frozenset(), 'pool'))
        return None

    def argspec(self, v, st, node, cx):
        ip = self.ip
        a = v.single()
        skip = 0
        while True:
            if isinstance(a, Bound):
                a = a.fn
            elif isinstance(a, Wrapt) and a.wrapped is not None:
                a = a.wrapped.single()
            elif isinstance(a, Desc):
                a = a.get.single()
            else:
                break
        if not isinstance(a, Fn):
            return mk(Opq())
        n = a.node.args
        names = [const(x.arg) for x in list(n.posonlyargs) + list(n.args)]
        kwo = [const(x.arg) for x in n.kwonlyargs]
        fs = {'args': ip.alloc(st, Obj('list', elts=tuple(names)), node, cx, 'as1'),
              'kwonlyargs': ip.alloc(st, Obj('list', elts=tuple(kwo)), node, cx, 'as2'),
              'varargs': const(n.vararg.arg) if n.vararg else NONE, 'varkw': const(n.kwarg.arg) if n.kwarg else NONE,
              'defaults': mk(Opq()), 'annotations': mk(Opq()), 'kwonlydefaults': mk(Opq())}
        return ip.alloc(st, Obj('inst', cls=None, fields=fs), node, cx, 'as3')

    def signature(self, v, st, node, cx):
        ip = self.ip
        a = v.single()
        drop = 0
        while True:
            if isinstance(a, Bound):
                drop += 1
                a = a.fn
            elif isinstance(a, Wrapt) and a.wrapped is not None:
                if a.inst is not None:
                    drop += 1
                a = a.wrapped.single()
            else:
                break
        if not isinstance(a, Fn):
            return mk(Opq())
        names = [x.arg for x in list(a.node.args.posonlyargs) + list(a.node.args.args)][drop:] + [x.arg for x in a.node.args.kwonlyargs]
        ps = {n: mk(Opq()) for n in names}
        d = ip.alloc(st, Obj('dict', keys=ps), node, cx, 'sg1')
        return ip.alloc(st, Obj('inst', cls=None, fields={'parameters': d, 'return_annotation': mk(Opq())}), node, cx, 'sg2')

    def deepcopy(self, v, st, node, cx, deep, memo=None):
        ip = self.ip
        out = []
        memo = memo if memo is not None else {}
        for a, t in v.alts:
            if isinstance(a, Arr):
                out.append(mk(Arr(a.cls, {ip.fresh_root(node, cx, ('dc', len(memo)))}, a.dtype, a.shape), t))
            elif isinstance(a, Opq):
                out.append(mk(Opq(frozenset(), a.hint), t))
            elif isinstance(a, Tup):
                out.append(mk(Tup([self.deepcopy(e, st, node, cx, deep, memo) if deep else e for e in a.elts]), t))
            elif isinstance(a, Ref):
                if a.oid in memo:
                    out.append(memo[a.oid])
                    continue
                o = ip.obj(st, a.oid)
                if o is None:
                    out.append(ANY)
                    continue
                r = ip.alloc(st, o.rep(tag=None, summary=False), node, cx, ('dc', len(memo)))
                memo[a.oid] = r
                ra = r.single()
                if deep:
                    f = lambda x: self.deepcopy(x, st, node, cx, True, memo)
                    n = ip.obj(st, ra.oid)
                    st.heap[ra.oid] = n.rep(elts=tuple(f(e) for e in o.elts) if o.elts is not None else None,
                                            elem=f(o.elem) if o.elem is not None else None,
                                            keys={k: f(e) for k, e in o.keys.items()} if o.keys is not None else None,
                                            fields={k: f(e) for k, e in o.fields.items()} if o.fields is not None else None)
                out.append(r)
            else:
                out.append(mk(a, t))
        return joinall(out).with_deps(v.deps)

    def itertools(self, fn, args, kw, st, node, cx):
        ip = self.ip
        its = [ip.iterate(a, st, node, cx) for a in args if not (isinstance(a.single(), Const) and isinstance(a.single().v, int))]
        import itertools as it
        if fn in ('zip_longest',):
            if all(x[0] is not None for x in its) and its:
                fv = kw.get('fillvalue', NONE)
                rows = list(it.zip_longest(*[x[0] for x in its], fillvalue=fv))
                return ip.alloc(st, Obj('iter', elts=tuple(mk(Tup(r)) for r in rows)), node, cx)
            return ip.alloc(st, Obj('iter', elts=None, elem=mk(Tup([joinv(x[1], kw.get('fillvalue', NONE)) for x in its]))), node, cx)
        if fn in ('combinations', 'permutations', 'product', 'combinations_with_replacement'):
            r = None
            for a in list(args[1:]) + list(kw.values()):
                ok, c = a.const()
                if ok and isinstance(c, int):
                    r = c
            ex = [x[0] for x in its]
            if fn == 'product':
                if all(e is not None for e in ex):
                    n = 1
                    for e in ex:
                        n *= len(e)
                    if n <= 64 and r is None:
                        return ip.alloc(st, Obj('iter', elts=tuple(mk(Tup(p)) for p in it.product(*ex))), node, cx)
                return ip.alloc(st, Obj('iter', elts=None, elem=mk(Tup([x[1] for x in its] * (r or 1)))), node, cx)
            if ex and ex[0] is not None and r is not None and len(ex[0]) <= 8:
                rows = list(getattr(it, fn)(ex[0], r))
                if len(rows) <= 64:
                    return ip.alloc(st, Obj('iter', elts=tuple(mk(Tup(p)) for p in rows)), node, cx)
            e = its[0][1] if its else ANY
            return ip.alloc(st, Obj('iter', elts=None, elem=mk(Tup([e] * (r or 2)))), node, cx)
        if fn == 'chain':
            if all(x[0] is not None for x in its):
                return ip.alloc(st, Obj('iter', elts=tuple(y for x in its for y in x[0])), node, cx)
            return ip.alloc(st, Obj('iter', elts=None, elem=joinall([x[1] for x in its]) if its else ANY), node, cx)
        if fn in ('count', 'repeat', 'cycle', 'islice', 'takewhile', 'dropwhile', 'accumulate', 'starmap', 'groupby'):
            self.callbacks('itertools.' + fn, args, kw, st, node, cx)
            return ip.alloc(st, Obj('iter', elts=None, elem=its[0][1] if its and fn in ('islice', 'cycle', 'takewhile', 'dropwhile') else ANY), node, cx)
        return None

    # ---- builtins
    def builtin(self, fn, args, kw, st, node, cx, starkw):
        ip = self.ip
        if fn in EXCS:
            return ip.alloc(st, Obj('inst', cls=None, fields={'args': mk(Tup(args))}, tag='builtins.' + fn), node, cx, 'exc')
        if fn == 'len' and args:
            out = []
            for a, t in args[0].alts:
                ex = ip.exact_elems(a, st)
                if ex is not None:
                    out.append(const(len(ex)))
                elif isinstance(a, Arr):
                    if a.shape is not None and len(a.shape) == 0:
                        ip.raise_ext('TypeError', st, node, cx)
                    elif a.shape is not None and len(a.shape) and a.shape[0] is not None:
                        out.append(self.dim_value(a.shape[0]))
                    else:
                        out.append(mk(Num('int'), TT('dim', t, 0)))
                elif isinstance(a, Ref):
                    o = ip.obj(st, a.oid)
                    m = ip.lookup_cls(o.cls, '__len__', st) if o is not None and o.kind == 'inst' and o.cls is not None else None
                    if m is not None:
                        out.append(ip.call_value(mk(ip.bind(m, mk(a, t), o.cls, st, node, cx)), [], {}, st, node, cx))
                    else:
                        out.append(mk(Num('int'), TT('len', t)))
                elif isinstance(a, (Num,)) or isinstance(a, Const):
                    ip.raise_ext('TypeError', st, node, cx)
                else:
                    out.append(mk(Num('int'), TT('len', t)))
            if not out:
                from .interp import Dead
                raise Dead()
            return joinall(out)
        if fn == 'range':
            cs = [a.const() for a in args]
            if all(o and isinstance(c, int) for o, c in cs):
                try:
                    r = range(*[c for _, c in cs])
                    if len(r) <= 40:
                        return ip.alloc(st, Obj('iter', elts=tuple(const(x) for x in r)), node, cx)
                except Exception:
                    pass
            o = Obj('iter', elts=None, elem=mk(Num('int')), tag='range')
            v = ip.alloc(st, o, node, cx)
            return v
        if fn == 'enumerate' and args:
            ex, el, _ = ip.iterate(args[0], st, node, cx)
            start = 0
            sv = args[1] if len(args) > 1 else kw.get('start')
            if sv is not None:
                ok, c = sv.const()
                start = c if ok and isinstance(c, int) else None
            if ex is not None and start is not None:
                return ip.alloc(st, Obj('iter', elts=tuple(mk(Tup([const(i + start), e])) for i, e in enumerate(ex))), node, cx)
            return ip.alloc(st, Obj('iter', elts=None, elem=mk(Tup([mk(Num('int')), el]))), node, cx)
        if fn == 'zip':
            its = [ip.iterate(a, st, node, cx) for a in args]
            if its and all(x[0] is not None for x in its):
                return ip.alloc(st, Obj('iter', elts=tuple(mk(Tup(r)) for r in zip(*[x[0] for x in its]))), node, cx)
            if any(x[0] is not None and len(x[0]) == 0 for x in its):
                return ip.alloc(st, Obj('iter', elts=()), node, cx)
            return ip.alloc(st, Obj('iter', elts=None, elem=mk(Tup([x[1] for x in its]))), node, cx)
        if fn in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
            if not args:
                if fn == 'tuple':
                    return mk(Tup(()))
                return ip.alloc(st, Obj('set' if fn in ('set', 'frozenset') else 'list', elts=()), node, cx)
            if fn == 'sorted' and 'key' in kw:
                ex, el, _ = ip.iterate(args[0], st, node, cx)
                self.callbacks('builtins.sorted', [kw['key']], {}, st, node, cx, argv=lambda s: [el])
            ex, el, _ = ip.iterate(args[0], st, node, cx)
            if fn in ('sorted', 'reversed', 'set', 'frozenset') and 'columns' in el.deps | (joinall(ex).deps if ex else NOD):
                el = el.with_deps({'reordered'})
                ex = [e.with_deps({'reordered'}) for e in ex] if ex is not None else None
            kind = 'set' if fn in ('set', 'frozenset') else ('iter' if fn in ('iter', 'reversed') else 'list')
            if fn == 'sorted' and ex is not None:
                cs = [e.const() for e in ex]
                if all(o for o, _ in cs) and 'key' not in kw and 'reverse' not in kw:
                    try:
                        ex = [const(c) for c in sorted(c for _, c in cs)]
                    except Exception:
                        ex, el = None, el
                elif len(ex) > 1:
                    ex = None
            if fn == 'reversed' and ex is not None:
                ex = list(reversed(ex))
            if kind == 'set' and ex is not None:
                seen, o = set(), []
                for e in ex:
                    if e not in seen:
                        seen.add(e)
                        o.append(e)
                ex = o
            if fn == 'tuple' and ex is not None:
                return mk(Tup(ex), args[0].term() if isinstance(args[0].single(), Tup) else None)
            term = args[0].term()
            obj = Obj(kind, elts=tuple(ex)) if ex is not None else Obj(kind, elts=None, elem=el)
            v = ip.alloc(st, obj, node, cx)
            if isinstance(args[0].single(), Ref) and args[0].single().oid in ip.term_shapes and isinstance(v.single(), Ref):
                ip.term_shapes[v.single().oid] = ip.term_shapes[args[0].single().oid]
            return v
        if fn == 'dict':
            keys, exact, elem = {}, starkw is None, starkw
            if args:
                a = args[0].single()
                if isinstance(a, Ref) and ip.obj(st, a.oid) is not None and ip.obj(st, a.oid).kind == 'dict':
                    keys, exact, elem = ip.dict_items(args[0], st)
                else:
                    ex, el, _ = ip.iterate(args[0], st, node, cx)
                    if isinstance(a, Opq):
                        exact, elem = False, mk(Opq(a.roots))
                    elif ex is not None:
                        for e in ex:
                            pe = ip.exact_elems(e.single(), st) if e.single() is not None else None
                            if pe is not None and len(pe) == 2 and pe[0].const()[0]:
                                keys[pe[0].const()[1]] = pe[1]
                            else:
                                exact, elem = False, ANY
                    else:
                        exact, elem = False, ANY
            keys = dict(keys)
            keys.update(kw)
            return ip.alloc(st, Obj('dict', keys=keys, exact=exact, elem=elem), node, cx)
        if fn in ('min', 'max', 'sum') and args:
            if 'key' in kw:
                self.callbacks('builtins.' + fn, [kw['key']], {}, st, node, cx)
            if len(args) == 1 or fn == 'sum':
                a = args[0].single()
                if isinstance(a, Arr):
                    return self.reduce(fn, args[0], [], {}, st, node, cx)
                ex, el, _ = ip.iterate(args[0], st, node, cx)
                items = ex
                if fn == 'sum':
                    if ex is not None and len(ex) <= 16:
                        acc = args[1] if len(args) > 1 else const(0)
                        for x in ex:
                            acc = ip.binop('add', acc, x, node, st, cx)
                        return acc
                    start = args[1] if len(args) > 1 else kw.get('start')
                    if start is not None and start.const() != (True, 0):
                        r = joinv(start, ip.binop('add', start, el, node, st, cx))
                        return V([(b, None) for b, _ in r.alts], r.deps | el.deps)
                    r = ip.binop('add', el, el, node, st, cx)
                    return V([(b, None) for b, _ in r.alts], r.deps)
                if ex is None:
                    return V([(b, None) for b, _ in el.alts if not isinstance(b, Const)] or [(Num('num'), None)], el.deps)
                args = ex
                if not args:
                    return ANY
            cs = [a.const() for a in args]
            if all(o and isinstance(c, (int, float)) for o, c in cs) and 'key' not in kw:
                return const((min if fn == 'min' else max)(c for _, c in cs))
            alts = set()
            for x in args:
                for b, _ in x.alts:
                    alts.add(('k', b))
            term = TT('py' + fn, *sorted([a.term() for a in args], key=lambda t: t.id if t is not None else 0)) if all(a.term() is not None for a in args) else None
            if all(isinstance(b, (Num, Const)) for _, b in alts):
                kinds = {b.kind if isinstance(b, Num) else type(b.v).__name__ for _, b in alts}
                return mk(Num(kinds.pop() if len(kinds) == 1 and kinds <= {'int', 'float'} else 'num'), term)
            return V([(b, None) for _, b in alts])
        if fn == 'abs' and args:
            return self.ewise('numpy.abs', args, {}, 'same', st, node, cx)
        if fn in ('int', 'float', 'bool', 'complex') and fn != 'complex':
            if not args:
                return const({'int': 0, 'float': 0.0, 'bool': False}[fn])
            out = []
            for a, t in args[0].alts:
                if isinstance(a, Const):
                    try:
                        out.append(const({'int': int, 'float': float, 'bool': bool}[fn](a.v)))
                        continue
                    except Exception:
                        if a.v is None:
                            ip.raise_ext('TypeError', st, node, cx)
                            continue
                if fn == 'float':
                    out.append(mk(Num('float'), t if isinstance(a, (Num, Arr, Opq)) else None))
                elif fn == 'int':
                    out.append(mk(Num('int'), t if isinstance(a, Num) and a.kind == 'int' else TT('int', t)))
                else:
                    r = ip.truth(a, st)
                    out.append(const(r) if r is not None else mk(Num('bool'), TT('builtins.bool', t)))
            if not out:
                from .interp import Dead
                raise Dead()
            return joinall(out)
        if fn == 'round' and args:
            return self.ewise('numpy.round', args[:1], {}, 'same', st, node, cx)
        if fn in ('str', 'repr', 'format', 'chr', 'hex', 'ascii', 'bin'):
            if args:
                ok, c = args[0].const()
                if ok and fn == 'str' and isinstance(c, (str, int)):
                    return const(str(c))
                for a, t in args[0].alts:
                    if isinstance(a, Ref):
                        o = ip.obj(st, a.oid)
                        if o is not None and o.kind == 'inst' and o.cls is not None:
                            for m_ in (['__str__', '__repr__'] if fn == 'str' else ['__repr__']):
                                m = ip.lookup_cls(o.cls, m_, st)
                                if m is not None:
                                    try:
                                        ip.call_value(mk(ip.bind(m, mk(a, t), o.cls, st, node, cx)), [], {}, st, node, cx)
                                    except Exception as e:
                                        if type(e).__name__ != 'Dead':
                                            raise
                                    break
            return mk(StrA())
        if fn == 'print':
            ip.emit('print', st=st, node=node, cx=cx, name='print')
            return NONE
        if fn in ('any', 'all') and args:
            a = args[0].single()
            if isinstance(a, Arr):
                return self.reduce(fn, args[0], [], {}, st, node, cx, 'b')
            ex, el, _ = ip.iterate(args[0], st, node, cx)
            if ex is not None:
                rs = []
                for e in ex:
                    tr = {ip.truth(b, st) if ip.truth(b, st) is not None else ip.fact(u, st) for b, u in e.alts}
                    rs.append(tr.pop() if len(tr) == 1 else None)
                if fn == 'any':
                    if any(r is True for r in rs):
                        return TRUE
                    if all(r is False for r in rs):
                        return FALSE
                else:
                    if any(r is False for r in rs):
                        return FALSE
                    if all(r is True for r in rs):
                        return TRUE
                term = TT('bool_or' if fn == 'any' else 'bool_and', *[e.term() for e in ex]) if ex else None
                return mk(Num('bool'), term)
            et = el.term()
            return mk(Num('bool'), None)
        if fn == 'map' and args:
            its = [ip.iterate(a, st, node, cx) for a in args[1:]]
            if its and all(x[0] is not None for x in its) and len(its[0][0]) <= 16:
                out = []
                for row in zip(*[x[0] for x in its]):
                    out.append(ip.call_value(args[0], list(row), {}, st, node, cx))
                return ip.alloc(st, Obj('iter', elts=tuple(out)), node, cx)
            s = st.copy()
            lid = ('comp', id(node), cx.ctx, tuple(ip.iter_path))
            try:
                r = ip.call_value(args[0], [ip.iter_elem(x[1], lid, (i,)) for i, x in enumerate(its)], {}, s, node, cx)
                st.assign(ip.join(st.copy(), s))
            except Exception as e:
                if type(e).__name__ != 'Dead':
                    raise
                r = ANY
            v = ip.alloc(st, Obj('iter', elts=None, elem=r), node, cx)
            if r.term() is not None and isinstance(v.single(), Ref):
                ip.term_shapes[v.single().oid] = r.term()
            return v
        if fn == 'filter' and args:
            ex, el, _ = ip.iterate(args[1], st, node, cx) if len(args) > 1 else (None, ANY, True)
            self.callbacks('builtins.filter', args[:1], {}, st, node, cx, argv=lambda s: [el])
            return ip.alloc(st, Obj('iter', elts=None, elem=el), node, cx)
        if fn == 'next' and args:
            ex, el, _ = ip.iterate(args[0], st, node, cx)
            return joinv(el, args[1]) if len(args) > 1 else el
        if fn == 'getattr' and len(args) >= 2:
            ok, n = args[1].const()
            if ok and isinstance(n, str):
                if len(args) > 2:
                    out = []
                    for a, t in args[0].alts:
                        h = ip.has_attr(a, n, st)
                        if h is not False:
                            ip.exc.append([])
                            try:
                                v = ip.get_attr1(a, t, n, st, node, cx)
                            except Exception as e:
                                if type(e).__name__ != 'Dead':
                                    raise
                                v = None
                            finally:
                                ip.exc.pop()
                            if v is not None:
                                out.append(v)
                            if v is None or h is None:
                                out.append(args[2])
                        else:
                            out.append(args[2])
                    return joinall(out)
                return ip.get_attr(args[0], n, st, node, cx)
            names = args[1].consts()
            if names and all(isinstance(n, str) for n in names):
                out = []
                for n in names:
                    try:
                        out.append(ip.get_attr(args[0], n, st.copy(), node, cx))
                    except Exception as e:
                        if type(e).__name__ != 'Dead':
                            raise
                return joinall(out) if out else ANY
            a = args[0].single()
            if isinstance(a, Ext):
                return mk(Opq(frozenset(), 'inst:rv_continuous')) if a.name == 'scipy.stats' else mk(Opq())
            if isinstance(a, ModA):
                return mk(Opq(frozenset(), 'inst:rv_continuous' if 'stats' in a.name else None))
            return mk(Opq(frozenset().union(*[x.roots for x in args[0].atoms() if isinstance(x, (Arr, Opq))])))
        if fn == 'setattr' and len(args) == 3:
            ok, n = args[1].const()
            if ok and isinstance(n, str):
                ip.set_attr(args[0], n, args[2], st, node, cx)
            else:
                for a, t in args[0].alts:
                    if isinstance(a, Ref):
                        o = ip.obj(st, a.oid)
                        if o is not None and o.kind == 'inst':
                            ip.emit('setattr', oid=a.oid, obj=o, attr='?', value=args[2], st=st, node=node, cx=cx, aug=False)
                    elif isinstance(a, (ModA, ClsA, Ext)):
                        ip.emit('globset', name='setattr', st=st, node=node, cx=cx, value=args[2])
            return NONE
        if fn == 'type' and args:
            out = []
            for a, t in args[0].alts:
                if isinstance(a, Ref) and ip.obj(st, a.oid) is not None and ip.obj(st, a.oid).kind == 'inst' and ip.obj(st, a.oid).cls is not None:
                    out.append(mk(ClsA(ip.obj(st, a.oid).cls)))
                elif isinstance(a, Arr):
                    out.append(mk(Ext({'ndarray': 'numpy.ndarray'}.get(a.cls, 'pandas.' + a.cls))))
                elif isinstance(a, Const):
                    out.append(mk(Ext('builtins.' + type(a.v).__name__)))
                else:
                    out.append(mk(Opq(frozenset(), 'type')))
            return joinall(out)
        if fn in ('isinstance', 'issubclass', 'callable', 'hasattr'):
            return BOOL
        if fn in ('id', 'hash', 'ord'):
            return mk(Num('int'))
        if fn == 'slice':
            a = list(args)
            if len(a) == 1:
                a = [NONE, a[0], NONE]
            while len(a) < 3:
                a.append(NONE)
            return mk(Partial(Ext('builtins.slice'), tuple(a[:3]), ()), TT('slice', *[x.term() for x in a[:3]]))
        if fn == 'pow' and len(args) >= 2:
            return ip.binop('pow', args[0], args[1], node, st, cx)
        if fn == 'divmod' and len(args) == 2:
            return mk(Tup([ip.binop('floordiv', args[0], args[1], node, st, cx), ip.binop('mod', args[0], args[1], node, st, cx)]))
        if fn in ('open', 'input', 'exec', 'eval', 'compile', '__import__'):
            ip.emit('io', name=fn, st=st, node=node, cx=cx)
            return mk(Opq())
        if fn == 'object':
            return mk(Opq())
        if fn in ('property',):
            return mk(Desc('property', args[0] if args else kw.get('fget', NONE), args[1] if len(args) > 1 else kw.get('fset')))
        if fn == 'staticmethod':
            return mk(Desc('static', args[0]))
        if fn == 'classmethod':
            return mk(Desc('class', args[0]))
        if fn in ('vars', 'dir', 'locals', 'globals'):
            return mk(Opq())
        if fn == 'complex':
            return mk(Num('num'))
        if fn == 'super':
            return mk(Opq())
        self.callbacks('builtins.' + fn, args, kw, st, node, cx)
        return mk(Opq())

    # ------------------------------------------------------------- methods of non-package objects
    def method(self, recv, rterm, name, args, kw, st, node, cx):
        ip = self.ip
        deps = self.deps(args, kw)
        ip.emit('meth', recv=recv, name=name, args=args, kw=kw, st=st, node=node, cx=cx)
        if isinstance(recv, Arr):
            r = self.arr_method(recv, rterm, name, args, kw, st, node, cx)
        elif isinstance(recv, Ref):
            r = self.obj_method(recv, rterm, name, args, kw, st, node, cx)
        elif isinstance(recv, Desc):
            if name == 'setter' and args:
                r = mk(Desc('property', recv.get, args[0]))
            elif name == 'getter' and args:
                r = mk(Desc('property', args[0], recv.set))
            else:
                r = mk(recv)
        elif isinstance(recv, (StrA,)) or isinstance(recv, Const) and isinstance(recv.v, str):
            r = self.str_method(recv, name, args, kw, st, node, cx)
        elif isinstance(recv, Tup):
            r = mk(Num('int'))
        elif isinstance(recv, (Num, Const)):
            if name == 'is_integer':
                r = const(float(recv.v).is_integer()) if isinstance(recv, Const) and isinstance(recv.v, (int, float)) else mk(Num('bool'))
            elif name in ('sum', 'max', 'min', 'item', 'mean', 'copy', 'prod', 'ravel', 'conjugate', 'astype', 'reshape', 'squeeze', 'flatten', 'round', 'tolist',
                        'clip', 'item', 'all', 'any'):
                if isinstance(recv, Const) and recv.v is not None and name in ('item', 'copy', 'tolist', 'sum', 'max', 'min'):
                    r = mk(recv)
                elif name in ('ravel', 'reshape', 'flatten'):
                    r = mk(Arr('ndarray', {ip.fresh_root(node, cx)}, {'float': 'f', 'int': 'i', 'u': 'u'}.get(getattr(recv, 'kind', ''), 'o'), None), rterm)
                elif name in ('any', 'all'):
                    r = mk(Num('bool'), TT('np.' + name, rterm))
                else:
                    r = mk(recv, rterm)
            else:
                r = mk(Opq())
        elif isinstance(recv, Opq):
            r = self.opq_method(recv, rterm, name, args, kw, st, node, cx)
        else:
            self.callbacks(name, args, kw, st, node, cx)
            r = mk(Opq())
        if r is None:
            r = mk(Opq())
        return r.with_deps(deps) if deps else r

    def str_method(self, recv, name, args, kw, st, node, cx):
        ip = self.ip
        if isinstance(recv, Const):
            cs = [a.const() for a in args]
            if all(o for o, _ in cs) and not kw and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'title', 'capitalize',
                                                             'split', 'casefold', 'lstrip', 'rstrip', 'isdigit', 'find', 'count'):
                try:
                    x = getattr(recv.v, name)(*[c for _, c in cs])
                    if isinstance(x, list):
                        return ip.alloc(st, Obj('list', elts=tuple(const(y) for y in x)), node, cx)
                    return const(x)
                except Exception:
                    return mk(Opq())
        if name in ('lower', 'upper', 'strip', 'replace', 'format', 'join', 'title', 'capitalize', 'casefold', 'center', 'ljust', 'rjust', 'zfill', 'lstrip', 'rstrip'):
            if name == 'join' and args:
                ip.iterate(args[0], st, node, cx)
            return mk(StrA())
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isupper'):
            return BOOL
        if name in ('split', 'splitlines', 'rsplit'):
            return ip.alloc(st, Obj('list', elts=None, elem=mk(StrA())), node, cx)
        if name in ('find', 'count', 'index'):
            return mk(Num('int'))
        return mk(Opq())

    def opq_method(self, recv, rterm, name, args, kw, st, node, cx):
        ip = self.ip
        h = recv.hint if isinstance(recv.hint, str) else ''
        term = TT('meth:' + name, rterm, *([a.term() for a in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw)]))
        if h.startswith('rng:'):
            if name in RNG_DRAWS or True:
                if name == 'shuffle' and args:
                    ip.mutate(args[0], 'random shuffle', st, node, cx)
                if name == 'seed':
                    return NONE
                size = kw.get('size')
                sh = self.shape_arg(size, st) if size is not None else None
                if name in ('uniform', 'normal') and len(args) > 2:
                    sh = self.shape_arg(args[2], st)
                return self.draw('generator.' + name, h[4:], st, node, cx, sh)
        if name == 'rvs':
            g = self.rng_desc(kw.get('random_state'))
            sz = kw.get('size') or (args[0] if args else None)
            return self.draw('rv.rvs', g, st, node, cx, self.shape_arg(sz, st) if sz is not None else None)
        if h == 'pool' or h == 'ext:multiprocessing.Pool':
            if name in ('map', 'imap', 'starmap', 'imap_unordered') and args:
                its = [ip.iterate(a, st, node, cx) for a in args[1:]]
                s = st.copy()
                try:
                    r = ip.call_value(args[0], [x[1] for x in its], {}, s, node, cx)
                    st.assign(ip.join(st.copy(), s))
                except Exception as e:
                    if type(e).__name__ != 'Dead':
                        raise
                    r = ANY
                return ip.alloc(st, Obj('iter', elts=None, elem=r), node, cx)
            if name in ('submit', 'apply', 'apply_async') and args:
                try:
                    return ip.call_value(args[0], args[1:], {}, st, node, cx)
                except Exception as e:
                    if type(e).__name__ != 'Dead':
                        raise
                    return ANY
        if name in ('pdf', 'cdf', 'logpdf', 'logcdf', 'ppf', 'sf', 'isf', 'logsf') and args and not recv.roots:
            r = self.ewise('rv.' + name, args[:1], {}, 'f', st, node, cx)
            a = r.single()
            if isinstance(a, Arr) or isinstance(a, Num):
                return mk(a, term)
            return mk(Opq(), term)
        if name in ('pdf', 'cdf', 'logpdf', 'logcdf', 'ppf', 'sf') and args:
            r = self.ewise('rv.' + name, args[:1], {}, 'f', st, node, cx)
            a = r.single()
            return mk(a if isinstance(a, (Arr, Num)) else Opq(), term)
        if h.startswith('inst:interp1d') :
            return mk(Opq(), term)
        if recv.roots:
            inplace = 'inplace' in kw and kw['inplace'].const() != (True, False)
            if name in MUT_OPQ or inplace or name == 'pop' and h in ('dict', 'list'):
                ip.mutate(mk(recv, rterm), '.%s()' % name, st, node, cx)
            self.callbacks(name, args, kw, st, node, cx)
            if name in ('copy', 'tolist', 'astype', 'flatten', 'sum', 'mean', 'max', 'min', 'prod', 'any', 'all', 'std', 'round', 'dot', 'corr', 'rank'):
                if name == 'copy':
                    return mk(Opq(frozenset(), recv.hint), rterm)
                return mk(Opq(), TT('np.' + name, rterm, *[a.term() for a in args]))
            if name in ('lower', 'upper', 'strip'):
                return mk(StrA())
            if name in ('to_numpy', 'ravel', 'reshape', 'values', 'items', 'get', 'pop', 'setdefault', 'transpose', 'squeeze', 'view', 'keys', 'rename',
                        'rename_axis'):
                return mk(Opq(recv.roots if name not in ('rename',) else frozenset()), term)
            return mk(Opq(), term)
        self.callbacks(name, args, kw, st, node, cx)
        if name in ('lower', 'upper', 'strip', 'join', 'format'):
            return mk(StrA())
        if name in ('sum', 'prod', 'max', 'min', 'mean', 'any', 'all', 'std', 'var'):
            has, ax, at = self.axis_of(args, kw, 0)
            t2 = TT('np.' + name, rterm, at) if has else TT('np.' + name, rterm)
            return mk(Opq(), t2)
        if name in ('ravel', 'reshape', 'astype', 'flatten', 'copy', 'squeeze', 'transpose', 'tolist', 'item', 'to_numpy'):
            t2 = rterm if name in ('copy', 'item') else TT('np.' + name, rterm, *[a.term() for a in args])
            return mk(Opq(), t2)
        if name == 'write' and 'std' in h:
            ip.emit('print', st=st, node=node, cx=cx, name='write')
        if h == 'logger' and name in ('info', 'warning', 'debug', 'error', 'critical'):
            ip.emit('print', st=st, node=node, cx=cx, name='log')
        return mk(Opq(), term)

    def opaque_call(self, a, t, args, kw, st, node, cx):
        self.callbacks('opaque', args, kw, st, node, cx)
        if a.hint == 'inst:interp1d':
            return mk(Opq())
        if isinstance(a.hint, str) and a.hint.startswith('inst:rv_'):
            return mk(Opq(frozenset(), 'inst:rv_frozen'))
        return mk(Opq(), TT('call', t, *([x.term() for x in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw)])))

    def obj_method(self, recv, rterm, name, args, kw, st, node, cx):
        ip = self.ip
        o = ip.obj(st, recv.oid)
        if o is None:
            return ANY
        me = mk(recv, rterm)
        if o.kind == 'inst':
            if name == '_asdict':
                return ip.alloc(st, Obj('dict', keys=dict(o.fields or {})), node, cx)
            if name == '_replace':
                fs = dict(o.fields or {})
                fs.update(kw)
                return ip.alloc(st, o.rep(fields=fs, tag=None, summary=False), node, cx)
            self.callbacks(name, args, kw, st, node, cx)
            return mk(Opq())
        if o.kind == 'list':
            if name in MUT_LIST:
                ip.mutate(me, '.%s()' % name, st, node, cx)
                o = ip.obj(st, recv.oid)
            strong = not o.summary and not ip.iter_loop_ambiguous(recv) if hasattr(ip, 'iter_loop_ambiguous') else not o.summary
            if name == 'append' and args:
                if o.elts is not None and strong and o.elem is None and len(o.elts) < 40:
                    st.heap[recv.oid] = o.rep(elts=o.elts + (args[0],))
                else:
                    e = o.all_elem()
                    st.heap[recv.oid] = o.rep(elts=None, elem=args[0] if e is None else joinv(e, args[0]))
                return NONE
            if name in ('extend', '__iadd__') and args:
                ex, el, _ = ip.iterate(args[0], st, node, cx)
                if ex is not None and o.elts is not None and strong and o.elem is None:
                    st.heap[recv.oid] = o.rep(elts=o.elts + tuple(ex))
                else:
                    e = o.all_elem()
                    st.heap[recv.oid] = o.rep(elts=None, elem=el if e is None else joinv(e, el))
                return NONE
            if name == 'insert' and len(args) > 1:
                ok, k = args[0].const()
                if ok and isinstance(k, int) and o.elts is not None and strong and o.elem is None:
                    l = list(o.elts)
                    l.insert(k, args[1])
                    st.heap[recv.oid] = o.rep(elts=tuple(l))
                else:
                    e = o.all_elem()
                    st.heap[recv.oid] = o.rep(elts=None, elem=args[1] if e is None else joinv(e, args[1]))
                return NONE
            if name == 'pop':
                if o.elts is not None and strong and o.elem is None and o.elts:
                    k = -1
                    if args:
                        ok, k = args[0].const()
                        if not ok or not isinstance(k, int) or not -len(o.elts) <= k < len(o.elts):
                            k = None
                    if k is not None:
                        l = list(o.elts)
                        r = l.pop(k)
                        st.heap[recv.oid] = o.rep(elts=tuple(l))
                        return r
                st.heap[recv.oid] = o.rep(elts=None, elem=o.all_elem())
                return o.all_elem() or ANY
            if name in ('sort', 'reverse', 'remove', 'clear'):
                if name == 'clear' and strong:
                    st.heap[recv.oid] = o.rep(elts=(), elem=None)
                else:
                    e = o.all_elem() or ANY
                    st.heap[recv.oid] = o.rep(elts=None, elem=e.with_deps({'reordered'}) if 'columns' in e.deps else e)
                return NONE
            if name == 'copy':
                return ip.alloc(st, o.rep(tag=None, summary=False), node, cx)
            if name in ('index', 'count'):
                return mk(Num('int'))
            return mk(Opq())
        if o.kind == 'set':
            if name in MUT_SET:
                ip.mutate(me, '.%s()' % name, st, node, cx)
                o = ip.obj(st, recv.oid)
                if name == 'add' and args:
                    if o.elts is not None and not o.summary and o.elem is None:
                        st.heap[recv.oid] = o.rep(elts=o.elts + (args[0],)) if args[0] not in o.elts else o
                        return NONE
                e = o.all_elem() or ANY
                st.heap[recv.oid] = o.rep(elts=None, elem=joinv(e, args[0]) if args else e)
                return NONE
            if name in ('issubset', 'issuperset', 'isdisjoint') and args:
                ca = ip.const_elems(me, st)
                cb = ip.const_elems(args[0], st)
                if ca is not None and cb is not None:
                    return const(getattr(set(ca), name)(set(cb)))
                return BOOL
            if name in ('union', 'intersection', 'difference', 'symmetric_difference') and args:
                ca = ip.const_elems(me, st)
                cb = ip.const_elems(args[0], st)
                if ca is not None and cb is not None:
                    return ip.alloc(st, Obj('set', elts=tuple(const(c) for c in sorted(getattr(set(ca), name)(set(cb)), key=repr))), node, cx)
                return ip.alloc(st, Obj('set', elts=None, elem=ANY), node, cx)
            return ip.alloc(st, o.rep(tag=None), node, cx) if name == 'copy' else mk(Opq())
        if o.kind == 'dict':
            if name in MUT_DICT:
                noop = False
                if name == 'setdefault' and args:
                    ok, k = args[0].const()
                    noop = ok and bool(o.keys) and k in o.keys and o.exact
                if not noop:
                    ip.mutate(me, '.%s()' % name, st, node, cx)
                o = ip.obj(st, recv.oid)
            if name in ('get', 'setdefault', 'pop') and args:
                ok, k = args[0].const()
                d = args[1] if len(args) > 1 else NONE
                r = None
                if ok and o.keys and k in o.keys:
                    r = o.keys[k] if o.exact else joinv(o.keys[k], d)
                elif o.exact and o.elem is None and ok:
                    if name == 'pop' and len(args) < 2:
                        ip.raise_ext('KeyError', st, node, cx)
                        from .interp import Dead
                        raise Dead()
                    r = d
                else:
                    r = joinv(o.all_elem() if not ok else (o.elem or ANY), d) if (o.elem is not None or o.all_elem() is not None) else joinv(ANY, d)
                if not ok:
                    r = V(r.alts, r.deps | args[0].deps)
                if name == 'setdefault':
                    ks = dict(o.keys or {})
                    if ok:
                        if not (k in ks and o.exact):
                            ks[k] = d if k not in ks else joinv(ks[k], d)
                            if not o.exact and o.elem is not None:
                                ks[k] = joinv(ks[k], o.elem)
                            st.heap[recv.oid] = o.rep(keys=ks)
                    else:
                        st.heap[recv.oid] = o.rep(elem=d if o.elem is None else joinv(o.elem, d), exact=False)
                elif name == 'pop':
                    ks = dict(o.keys or {})
                    if ok and not o.summary:
                        ks.pop(k, None)
                        st.heap[recv.oid] = o.rep(keys=ks)
                return r
            if name == 'update':
                ks = dict(o.keys or {})
                elem, exact = o.elem, o.exact
                for v in args:
                    k2, e2, el2 = ip.dict_items(v, st)
                    for k, x in k2.items():
                        ks[k] = x if not o.summary and e2 else (joinv(ks[k], x) if k in ks else x)
                    if not e2:
                        exact = False
                        elem = el2 if elem is None else (joinv(elem, el2) if el2 is not None else elem)
                ks.update(kw)
                st.heap[recv.oid] = o.rep(keys=ks, elem=elem, exact=exact)
                return NONE
            if name == 'keys':
                if o.exact and o.elem is None:
                    return ip.alloc(st, Obj('set', elts=tuple(const(k) for k in (o.keys or {}))), node, cx)
                return ip.alloc(st, Obj('set', elts=None, elem=joinall([const(k) for k in (o.keys or {})] + [ANY])), node, cx)
            if name == 'values':
                if o.exact and o.elem is None:
                    return ip.alloc(st, Obj('iter', elts=tuple((o.keys or {}).values())), node, cx)
                return ip.alloc(st, Obj('iter', elts=None, elem=o.all_elem() or ANY), node, cx)
            if name == 'items':
                if o.exact and o.elem is None:
                    return ip.alloc(st, Obj('iter', elts=tuple(mk(Tup([const(k), v])) for k, v in (o.keys or {}).items())), node, cx)
                return ip.alloc(st, Obj('iter', elts=None, elem=mk(Tup([joinall([const(k) for k in (o.keys or {})] + [mk(Opq())]), o.all_elem() or ANY]))), node, cx)
            if name == 'copy':
                return ip.alloc(st, o.rep(tag=None, summary=False), node, cx)
            if name in ('clear', 'popitem'):
                st.heap[recv.oid] = o.rep(keys={}, elem=o.all_elem() if name == 'popitem' else None)
                return NONE
            return mk(Opq())
        if o.kind == 'iter':
            if name == '__next__':
                return o.all_elem() or ANY
        return mk(Opq())

    def arr_method(self, a, t, name, args, kw, st, node, cx):
        ip = self.ip
        me = mk(a, t)
        if name in RED:
            return self.reduce(name, me, args, kw, st, node, cx, RED[name])
        inplace = 'inplace' in kw and kw['inplace'].const() != (True, False)
        if inplace:
            ip.mutate(me, '.%s(inplace=True)' % name, st, node, cx)
            return NONE
        if name in MUT_ARR:
            if a.cls == 'ndarray' or name in ('insert', 'pop', 'update'):
                if name == 'byteswap' and not (args and args[0].const() == (True, True)):
                    return self.fresh(a.cls, a.dtype, a.shape, node, cx)
                ip.mutate(me, '.%s()' % name, st, node, cx)
                if name == 'fill' and args:
                    ip.emit('store', arr=a, value=args[0], how='fill', st=st, node=node, cx=cx)
                return NONE if name != 'pop' else mk(Arr('Series', a.roots, a.dtype, None))
        if name in ('ravel', 'reshape', 'transpose', 'squeeze', 'swapaxes', 'diagonal'):
            return self.view_of(name, me, args, kw, st, node, cx, cls=a.cls if a.cls != 'Series' else 'ndarray')
        if name == 'view':
            return me
        if name in ('to_numpy',):
            dt = self.dtype_arg(kw.get('dtype') or (args[0] if args else None))
            cp = kw.get('copy')
            roots = a.roots
            if cp is not None and cp.const() == (True, True):
                roots = frozenset({ip.fresh_root(node, cx)})
            if dt is not None and a.dtype not in (dt, 'u', 'o'):
                roots = frozenset({ip.fresh_root(node, cx)})
            return mk(Arr('ndarray', roots, dt if dt not in (None, 'o') else a.dtype, a.shape), TT('np.asarray', t))
        if name in ('copy', 'flatten', '__copy__', '__deepcopy__'):
            sh = a.shape if name != 'flatten' else (a.shape if a.shape is not None and len(a.shape) == 1 else (None,))
            return self.fresh(a.cls, a.dtype, sh, node, cx, t if name != 'flatten' else TT('np.ravel', t))
        if name == 'astype':
            d = self.dtype_arg(args[0] if args else kw.get('dtype'))
            cp = kw.get('copy')
            roots = {ip.fresh_root(node, cx)}
            if cp is not None and cp.const() != (True, True) and a.dtype in (d, 'u', 'o'):
                roots = a.roots
            return mk(Arr(a.cls, roots, d if d not in (None,) else 'o', a.shape), t if d == 'f' else TT('astype', t, d))
        if name == 'tolist':
            return ip.alloc(st, Obj('list', elts=None, elem=ip.elem_of(a, t, st, node, cx)), node, cx)
        if name in ('item',):
            return self.scalar_of(a.dtype, t if not args or args[0].const() == (True, 0) else None)
        if name in ('clip', 'round', 'conj', 'conjugate', 'abs'):
            if 'out' in kw:
                ip.mutate(kw['out'], 'out= argument', st, node, cx)
            return self.fresh(a.cls, a.dtype, a.shape, node, cx, TT('np.' + name, t, *[x.term() for x in args]))
        if name in ('cumsum', 'cumprod', 'diff', 'repeat', 'rank', 'fillna', 'dropna', 'sort_values', 'sort_index', 'reset_index', 'set_index', 'rename', 'drop',
                    'replace', 'assign', 'reindex', 'head', 'tail', 'sample', 'where', 'mask', 'map', 'applymap', 'query', 'add', 'sub', 'mul', 'div', 'pow',
                    'filter', 'sub', 'truediv', 'shift', 'nlargest', 'sort', 'isna', 'isnull', 'notna', 'eq', 'lt', 'le', 'gt', 'ge', 'stack', 'interpolate'):
            if name == 'sample':
                ip.emit('rng', op='draw', gen=self.rng_desc(kw.get('random_state')), name='pandas.sample', st=st, node=node, cx=cx)
            self.callbacks(name, args, kw, st, node, cx)
            d = 'b' if name in ('isna', 'isnull', 'notna', 'eq', 'lt', 'le', 'gt', 'ge') else ('f' if name in ('rank', 'div', 'truediv') else
                                                                                             (a.dtype if name not in ('map', 'applymap', 'assign', 'replace', 'where') else 'o'))
            sh = a.shape if name in ('cumsum', 'cumprod', 'rank', 'fillna', 'sort_values', 'sort_index', 'rename', 'add', 'sub', 'mul', 'div', 'isna', 'isnull',
                                     'notna', 'where', 'mask', 'shift') else None
            term = TT('meth:' + name, t, *([x.term() for x in args] + [TT('kw', k, kw[k].term()) for k in sorted(kw)])) if name != 'sample' else None
            r = self.fresh(a.cls, d, sh, node, cx, term)
            if name == 'reindex':
                r = r.with_deps({'colselect'})
            return r
        if name in ('argsort', 'searchsorted', 'nonzero'):
            return self.fresh('ndarray', 'i', a.shape if name == 'argsort' else None, node, cx, TT('np.' + name, t, *[x.term() for x in args]))
        if name in ('dot', '__matmul__') and args:
            r = ip.binop('matmul', me, args[0], node, st, cx)
            return r
        if name == 'take' or name == 'compress':
            return self.fresh('ndarray', a.dtype, None, node, cx, TT('np.' + name, t, *[x.term() for x in args]))
        if name in ('corr', 'cov', 'describe'):
            return self.fresh('DataFrame' if a.cls == 'DataFrame' else 'ndarray', 'f', None, node, cx, TT('meth:' + name, t, *[x.term() for x in args]))
        if name in ('iterrows', 'items', 'itertuples', 'iteritems'):
            return ip.alloc(st, Obj('iter', elts=None, elem=mk(Tup([mk(StrA()), mk(Arr('Series', a.roots, a.dtype, (None,)))]))), node, cx)
        if name in ('apply', 'agg', 'aggregate', 'pipe', 'transform'):
            self.callbacks('pandas.apply', args, kw, st, node, cx, argv=lambda s: [mk(Arr('Series' if a.cls == 'DataFrame' else 'ndarray', a.roots, a.dtype, (None,)))])
            return self.fresh(a.cls, 'o', None, node, cx)
        if name == 'to_string' or name == 'to_html' or name == 'tostring':
            return mk(StrA())
        if name == '__setitem__' and len(args) == 2:
            ip.set_item(me, args[0], args[1], st, node, cx)
            return NONE
        if name == '__getitem__' and args:
            return ip.get_item(me, args[0], st, node, cx)
        if name in ('__len__',):
            return self.builtin('len', [me], {}, st, node, cx, None)
        if 'out' in kw:
            ip.mutate(kw['out'], 'out= argument', st, node, cx)
        self.callbacks(name, args, kw, st, node, cx)
        return mk(Opq(), TT('meth:' + name, t, *[x.term() for x in args]))
