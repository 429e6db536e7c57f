"""P08: columns are matched by label, and labels come back on the results."""
from ..check import *

LABELLED = ('ClaytonCopula', 'FrankCopula', 'GumbelCopula', 'GaussianCopula', 'StudentCopula', 'GaussianMixtureCopula', 'MarginalCopula')
CONTENT = ('cdf', 'pdf', 'log_lik')


class CHECK(Rule):
    """Provenance analysis of column labels.  A copula is fitted to (EmpiricalCopula: constructed from) an abstract DataFrame; the labels it keeps are
    marked.  Then (1) in every cdf, pdf and log_lik called with a DataFrame, and on some path with a Series, the caller's data must pass through a selection by the
    kept labels in their order before they reach the result; (2) every path of random() must return a DataFrame that carries exactly the kept labels;
    (3) after a later fit to another frame random() carries the labels of that frame only, and after a fit to an ndarray no DataFrame comes back.
    (4) pseudo_obs, to_marginals and the correlation functions label their result for a DataFrame like the data they were given."""
    pid = 'P08'
    dims = (2, 3)
    walks = ('copulas', 'functions')
    classes = LABELLED + ('EmpiricalCopula',)
    MIN = {'aligned': 20, 'labelled': 20, 'functions': 4}

    FIXTURE = '''
import numpy as np
import pandas as pd

class C:
    def __init__(self, data):
        self.columns = list(data.columns)

    def good_loc(self, x):
        return np.sum(x.loc[:, self.columns].to_numpy())

    def good_getitem(self, x):
        x = x[self.columns]
        return np.sum(x.to_numpy() + 1)

    def good_stack(self, x):
        return np.sum(np.column_stack([x[c] for c in self.columns]))

    def good_reindex(self, x):
        return np.sum(x.reindex(columns=self.columns).to_numpy())

    def good_positions(self, x):
        k = [x.columns.get_loc(c) for c in self.columns]
        return np.sum(x.to_numpy()[:, k])

    def bad_position(self, x):
        return np.sum(x.to_numpy())

    def bad_iloc(self, x):
        return np.sum(x.iloc[:, :2].to_numpy())

    def bad_own_labels(self, x):
        return np.sum(x.loc[:, list(x.columns)].to_numpy())

    def bad_sorted(self, x):
        return np.sum(x[sorted(self.columns)].to_numpy())

    def bad_sometimes(self, x):
        if len(x) > 10:
            x = x[self.columns]
        return np.sum(x.to_numpy())

    def good_out(self, n):
        return pd.DataFrame(np.ones((n, 2)), columns=self.columns)

    def bad_out_plain(self, n):
        return np.ones((n, 2))

    def bad_out_unlabelled(self, n):
        return pd.DataFrame(np.ones((n, 2)))

    def bad_out_sorted(self, n):
        return pd.DataFrame(np.ones((n, 2)), columns=sorted(self.columns))

    def bad_out_other(self, n):
        return pd.DataFrame(np.ones((n, 2)), columns=list('ab'))

    def bad_out_some(self, n):
        u = np.ones((n, 2))
        if n > 100:
            return u
        return pd.DataFrame(u, columns=self.columns)

def good_label(x):
    return pd.DataFrame(np.asarray(x) + 1, columns=x.columns, index=x.index)

def bad_no_index(x):
    return pd.DataFrame(np.asarray(x) + 1, columns=x.columns)

def bad_no_columns(x):
    return pd.DataFrame(np.asarray(x) + 1, index=x.index)

def bad_array(x):
    return np.asarray(x) + 1
'''

    relabel, compared = False, False

    def run_fixture(self, S):
        C = S.root_value('copulae', 'C')
        ci = S.cls('copulae', 'C')
        o = S.call(C, [self.frame('lab1')], {}, S.state(), 'C')
        inst = Inst(ci, 'C', 2, '', o.value, o.st, None)
        self.mark(S, inst)
        for n in sorted(k for k in S.ip.frame(o.st, ci.fid) if k.startswith(('good_', 'bad_'))):
            if '_out' in n:
                self.out(S, Call(S, inst, n, '', 'call', [S.num('n', 'int')], {}, inst.st))
            else:
                self.query(S, Call(S, inst, n, 'x=DataFrame', 'call', [self.frame('raw')], {}, inst.st))
        for n, fv in sorted(S.public('copulae').items()):
            if n.startswith(('good_', 'bad_')):
                self.func(FCall(S, 'copulae', n, fv, 'x=DataFrame', [self.frame('raw')], {}, S.state()), 'data')

    # ---- inputs
    def frame(self, dep, dim=2, cls='DataFrame', name=None):
        return self.S.nd(name or 'p08.' + dep, 2 if cls == 'DataFrame' else 1, dim, 'u', cls, deps=frozenset({dep}))

    def mark(self, S, inst, add='stored', last=None):
        """mark the labels (and labelled data) the instance holds"""
        st = inst.st.copy()
        oids, _ = reach(S, st, [inst.v])

        def f(v):
            if v is None:
                return v
            if 'columns' in v.deps or any(isinstance(a, Arr) and a.cls == 'DataFrame' or isinstance(a, Opq) and a.hint == 'columns' for a in v.atoms()):
                v = V(v.alts, v.deps | {add})
            if any(isinstance(a, Tup) for a in v.atoms()):
                v = V(frozenset((Tup([f(e) for e in a.elts]) if isinstance(a, Tup) else a, t) for a, t in v.alts), v.deps)
            return v
        for oid in oids:
            if oid in self.ip.base_heap:
                continue
            o = st.heap.get(oid)
            if o is None:
                continue
            kw = {}
            if o.elts is not None:
                kw['elts'] = tuple(f(e) for e in o.elts)
            if o.elem is not None:
                kw['elem'] = f(o.elem)
            if o.keys:
                kw['keys'] = {k: f(x) for k, x in o.keys.items()}
            if o.kind == 'inst' and o.fields:
                kw['fields'] = {k: f(x) for k, x in o.fields.items()}
            st.heap[oid] = o.rep(**kw)
        inst.st = st

    # ---- events
    def pre_call(self, c):
        self.relabel, self.compared = False, False

    def on_branch(self, values, decided, st, node, cx, **k):
        ds = frozenset().union(*[self.ip.deep_deps(v, st) for v in values])
        if 'stored' in ds and 'rawcol' in ds:
            self.compared = True

    def on_setattr(self, attr=None, **k):
        if attr in ('columns', 'index'):
            self.relabel = True

    def on_store(self, how=None, **k):
        if how in ('.columns', '.index'):
            self.relabel = True

    def on_mutate(self, how=None, **k):
        if how and ('.columns' in how or '.index' in how or 'attribute' in how):
            self.relabel = True

    # ---- walking
    def walk_copula(self, S, name, dim):
        insts = self.construct(S, name, dim)
        for inst in insts:
            if name == 'EmpiricalCopula':
                if inst.label.startswith('DataFrame'):
                    self.mark(S, inst)
                    self.labelled(S, inst)
                else:
                    self.plain(S, inst)
                continue
            fits = [c for c in fit_calls(S, inst, inst.st, brief=False) if c.label.endswith((',data=DataFrame', ',data=ndarray'))]
            for c in fits:
                if not c.label.endswith('DataFrame'):
                    continue
                c.args = [self.frame('lab1', dim)] + list(c.args[1:])
                o = self.do(c, 'mutator')
                if o.value is None:
                    continue
                i1 = self.at(S, inst, o.st)
                self.mark(S, i1)
                self.labelled(S, i1)
                # histories: the labels of the latest fit count
                self.mark(S, i1, 'old')
                for d in fits:
                    if d.label.split(',')[0] != c.label.split(',')[0]:
                        continue
                    again = Call(S, i1, 'fit', 'again ' + d.label, 'call', [self.frame('lab2', dim) if d.label.endswith('DataFrame') else d.args[0]], d.kw, i1.st)
                    o2 = self.do(again, 'mutator')
                    if o2.value is None:
                        continue
                    i2 = self.at(S, i1, o2.st)
                    if d.label.endswith('DataFrame'):
                        self.mark(S, i2)
                        self.outs(S, i2, 'lab2')
                    else:
                        self.plain(S, i2)

    def at(self, S, inst, st):
        return Inst(inst.cls, inst.name, inst.dim, inst.label, inst.v, compact(S, st, [inst.v]), inst.inner)

    def labelled(self, S, inst):
        for n in CONTENT:
            calls = method_calls(S, inst, inst.st, n)
            par = calls[0] if calls else None
            if par is None:
                raise Missing('%s.%s' % (inst.name, n))
            for cls in ('DataFrame', 'Series'):
                if cls == 'Series' and n == 'log_lik':
                    continue
                for kw in ({}, {'log': TRUE}) if n != 'log_lik' else ({}, {'to_pobs': FALSE}):
                    self.query(S, Call(S, inst, n, 'x=%s%s' % (cls, ''.join(',%s' % k for k in kw)), 'call',
                                       [self.frame('raw', inst.dim, cls)], kw, inst.st))
        self.outs(S, inst, None)

    def outs(self, S, inst, lab):
        for kw in ({}, {'seed': const(7)}):
            self.out(S, Call(S, inst, 'random', ','.join(kw), 'call', [S.num('n', 'int')], kw, inst.st), lab)

    def plain(self, S, inst):
        c = Call(S, inst, 'random', '', 'call', [S.num('n', 'int')], {}, inst.st)
        o = self.do(c, 'query')
        self.count['labelled'] += 1
        if o.value is not None and any(isinstance(a, Arr) and a.cls == 'DataFrame' for a in o.value.atoms()):
            self.flag(c, 'labels out of nowhere', 'a DataFrame comes back although the data it was last fitted to had no labels')

    def flag(self, c, construct, msg):
        fn = P11E(self, c)
        m = self.S.p.modules.get(fn.mod) if fn is not None else None
        q = (fn.owner.name + '.' if fn is not None and fn.owner is not None else '') + (fn.name if fn is not None else c.name)
        cls = c.inst.name + '.' if getattr(c, 'inst', None) is not None and fn is not None and fn.owner is not None and fn.owner.name != c.inst.name else ''
        self.report_at(m.rel if m else '?', fn.node.lineno if fn is not None else 0, q, cls + construct, msg)

    def query(self, S, c):
        o = self.do(c, 'query')
        self.count['aligned'] += 1
        if o.value is None or o.budget:
            return
        d = o.value.deps
        if 'raw' not in d:
            return
        if ('DataFrame' not in c.label or self.compared) and 'colselect' in d:
            return
        self.flag(c, 'matched by position', '%s uses the columns of the caller in the order they come, not by their labels' % c.where())

    def out(self, S, c, lab=None):
        o = self.do(c, 'query')
        self.count['labelled'] += 1
        if o.value is None or o.budget:
            return
        d = o.value.deps
        ats = o.value.atoms()
        if any(isinstance(a, Arr) and a.cls != 'DataFrame' for a in ats) or ('col:none' in d and not self.relabel):
            self.flag(c, 'labels lost', '%s does not return the labels of the data the copula was fitted to' % c.where())
        elif self.relabel:
            return
        elif 'col:reordered' in d:
            self.flag(c, 'labels reordered', '%s returns the labels in another order' % c.where())
        elif all(isinstance(a, Arr) for a in ats) and 'col:given' in d and ('col:stored' not in d or lab and ('col:' + lab not in d or 'col:old' in d)):
            self.flag(c, 'other labels', '%s returns labels that are not those of the latest data' % c.where())

    # ---- functions
    def walk_functions(self, S, part, parts):
        todo = []
        for c in all_func_calls(S):
            lab = [x for x in c.label.split(',') if x.endswith('=DataFrame')]
            if not lab:
                continue
            n = c.name.split('.')[-1]
            if n in ('corr', 'pearson_rho', 'kendall_tau', 'spearman_rho'):
                todo.append((c, 'columns'))
            elif n == 'pseudo_obs':
                todo.append((c, 'data'))
        for c, how in todo[part::parts]:
            self.func(c, how)

    def func(self, c, how):
        o = self.do(c, 'function')
        self.count['functions'] += 1
        if o.value is None or o.budget:
            return
        d = o.value.deps
        ats = o.value.atoms()
        if any(isinstance(a, Arr) and a.cls != 'DataFrame' for a in ats) or any(isinstance(a, Num) for a in ats):
            self.flag(c, 'labels lost', '%s does not return a DataFrame' % c.where())
        elif self.relabel:
            return
        elif 'col:none' in d or 'col:given' in d and 'col:columns' not in d:
            self.flag(c, 'columns lost', '%s returns a DataFrame without the column labels of the data' % c.where())
        elif 'idx:none' in d or 'idx:given' in d and how == 'data' and 'idx:rowindex' not in d:
            self.flag(c, 'index lost', '%s returns a DataFrame without the row labels of the data' % c.where())
        elif 'col:reordered' in d:
            self.flag(c, 'labels reordered', '%s returns the labels in another order' % c.where())


def P11E(self, c):
    from .p11 import CHECK as P11
    return P11.entry_fn(self, c)
