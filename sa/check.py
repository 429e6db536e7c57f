"""Check framework: a Rule listens to the abstract interpreter while a walk drives the public surface."""
import ast
import importlib
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback
from collections import Counter

from .surface import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def src(node, limit=90):
    try:
        s = ast.unparse(node)
    except Exception:
        s = type(node).__name__
    s = ' '.join(s.split())
    return s if len(s) <= limit else s[:limit] + '...'


class Rule(Listener):
    pid = None
    walks = ('copulas', 'functions', 'gmcparam')
    dims = (2, 3)
    classes = COPULAS
    func_filter = None          # predicate on FCall
    imports = False             # also listen while the modules are loaded
    settle_rounds = 2
    FIXTURE = None              # source of a tiny package with bad_* / good_* functions
    MIN = {}                    # confirmed minimum counts on the analysed surface

    def __init__(self):
        self.findings = {}
        self.count = Counter()
        self.call = None
        self.phase = None
        self.samples = []

    # ---- hooks
    def start(self, S):
        self.S = S
        self.ip = S.ip
        if self not in S.ip.listeners:
            S.ip.listeners.append(self)
        S.rule = self

    def pre_call(self, c):
        pass

    def post_call(self, c):
        pass

    def unit_done(self):
        pass

    def custom(self, S, unit):
        """extra analysis units of the rule"""

    def custom_units(self, tier):
        return []

    # ---- reporting
    def where(self):
        return self.call.where() if self.call is not None else '?'

    def report(self, node, cx, construct, msg, extra=''):
        rel, line, qual = self.ip.loc(node, cx) if cx is not None else ('?', 0, '?')
        key = '%s::%s::%s' % (rel, qual, construct)
        if key not in self.findings:
            self.findings[key] = {'key': key, 'file': rel, 'line': line, 'function': qual, 'construct': construct,
                                  'message': msg, 'entry': self.where(), 'chain': cx.chain() if cx is not None else [],
                                  'extra': extra, 'entries': 1}
        else:
            self.findings[key]['entries'] += 1

    def report_at(self, rel, line, qual, construct, msg, extra=''):
        key = '%s::%s::%s' % (rel, qual, construct)
        if key not in self.findings:
            self.findings[key] = {'key': key, 'file': rel, 'line': line, 'function': qual, 'construct': construct,
                                  'message': msg, 'entry': self.where(), 'chain': [], 'extra': extra, 'entries': 1}
        else:
            self.findings[key]['entries'] += 1

    # ---- walking
    def do(self, c, phase):
        self.call, self.phase = c, phase
        self.pre_call(c)
        c.run()
        self.count['abstract_calls'] += 1
        self.count['calls.' + phase] += 1
        self.post_call(c)
        self.call = None
        return c.out

    def walk_copula(self, S, name, dim):
        for inst in self.construct(S, name, dim):
            self.walk_instance(S, inst)

    def construct(self, S, name, dim):
        self.phase = 'new'
        res = []

        class C0:
            def __init__(s, n):
                s.n = n

            def where(s):
                return '%s.__init__' % s.n
        self.call = C0(name)
        res = new(S, name, dim)
        self.call = None
        self.count['instances'] += len(res)
        return res

    def walk_instance(self, S, inst):
        for c in query_calls(S, inst, inst.st):
            self.do(c, 'query')
        st = self.settle(S, inst)
        if st is not inst.st:
            for c in query_calls(S, inst, st):
                self.do(c, 'query')

    def settle(self, S, inst):
        cur = inst.st
        for r in range(self.settle_rounds):
            acc = None
            for c in fit_calls(S, inst, cur, 's%d.' % r, brief=r > 0) + set_calls(S, inst, cur, 's%d.' % r):
                o = self.do(c, 'mutator')
                if o.value is None:
                    continue
                end = compact(S, o.st, [inst.v])
                acc = end if acc is None else S.ip.join(acc, end)
            if acc is None:
                break
            cur = compact(S, acc, [inst.v])
        return cur

    def walk_functions(self, S, part, parts):
        cs = all_func_calls(S)
        if self.func_filter is not None:
            cs = [c for c in cs if self.func_filter(c)]
        # neighbours differ in cost by function: interleave
        for c in cs[part::parts]:
            self.do(c, 'function')

    def walk_gmcparam(self, S):
        inst, q, sets, fc = gmcparam_calls(S)
        for c in q:
            self.do(c, 'query')
        for c in sets:
            self.do(c, 'mutator')
        for c in fc:
            self.do(c, 'function')

    def units(self, tier):
        u = []
        if 'copulas' in self.walks:
            order = sorted(self.classes, key=lambda n: n not in ('FrankCopula', 'GumbelCopula'))
            for n in order:
                for d in (self.dims if tier == 'quick' else tuple(self.dims) + (4,)):
                    u.append(('copula', n, d))
        if 'functions' in self.walks:
            for i in range(8):
                u.append(('functions', i, 8))
        if 'gmcparam' in self.walks:
            u.append(('gmcparam',))
        return u + list(self.custom_units(tier))

    def run_unit(self, S, unit):
        if unit[0] == 'copula':
            self.walk_copula(S, unit[1], unit[2])
        elif unit[0] == 'functions':
            self.walk_functions(S, unit[1], unit[2])
        elif unit[0] == 'gmcparam':
            self.walk_gmcparam(S)
        else:
            self.custom(S, unit)
        self.unit_done()

    # ---- fixture
    def run_fixture(self, S):
        for n, v in sorted(S.public('copulae').items()):
            if n.startswith(('bad_', 'good_')):
                for c in func_calls(S, 'copulae', n, v):
                    self.do(c, 'function')

    def fixture_flags(self):
        return {f['function'].split('.')[-1] for f in self.findings.values()}


def _run_unit(args):
    mod, cls, unit, repo = args
    t = time.time()
    try:
        m = importlib.import_module(mod)
        r = getattr(m, cls)()
        S = Sess(repo, listeners=[r] if r.imports else ())
        r.start(S)
        r.run_unit(S, unit)
        fmap = {id(n): m.name + ':' + n.name + ':' + str(n.lineno) for m, n in S.p.funcs()}
        fns = sorted({fmap[id(n)] for n in S.ip.visited if id(n) in fmap})
        return dict(unit=unit, findings=r.findings, count=dict(r.count), gaps=S.gaps, samples=r.samples[:5],
                    fns=fns, stmts=len(S.ip.visited_stmts), wall=time.time() - t, err=None)
    except Missing as e:
        return dict(unit=unit, err='missing public anchor: %s' % e)
    except Exception:
        return dict(unit=unit, err=traceback.format_exc())


def fixture_ok(rulecls):
    """the rule fires on the bad_* functions of its own tiny package and on none of the good_* ones"""
    r0 = rulecls()
    if r0.FIXTURE is None:
        return None, []
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, 'copulae'))
        files = r0.FIXTURE if isinstance(r0.FIXTURE, dict) else {'__init__.py': r0.FIXTURE}
        for fn, text in files.items():
            with open(os.path.join(d, 'copulae', fn), 'w') as fh:
                fh.write(text)
        r = rulecls()
        S = Sess(d, listeners=[r] if r.imports else ())
        r.start(S)
        r.run_fixture(S)
        flags = r.fixture_flags()
        names = set()
        for fn, text in files.items():
            for n in ast.walk(ast.parse(text)):
                if isinstance(n, ast.FunctionDef) and n.name.startswith(('bad_', 'good_')):
                    names.add(n.name)
        bad = []
        for n in sorted(names):
            if n.startswith('bad_') and n not in flags:
                bad.append('%s not flagged' % n)
            if n.startswith('good_') and n in flags:
                bad.append('%s flagged' % n)
        return not bad, bad if bad else sorted(names)


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' -- ')
                out[key.strip()] = what.strip()
    return out


def main(pid, tier='quick', repo=None, evidence=True, jobs=None):
    t0 = time.time()
    m = importlib.import_module('sa.checks.' + pid.lower())
    rulecls = m.CHECK
    ok, detail = fixture_ok(rulecls)
    if ok is False:
        print('ERROR: self-test of %s failed: %s' % (pid, '; '.join(detail)))
        return 2
    r = rulecls()
    units = r.units(tier)
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(units)))
    args = [(rulecls.__module__, rulecls.__name__, u, repo) for u in units]
    if jobs > 1:
        with mp.get_context('fork').Pool(jobs, maxtasksperchild=1) as pool:
            res = pool.map(_run_unit, args, chunksize=1)
    else:
        res = [_run_unit(a) for a in args]
    if os.environ.get('SA_TIMES'):
        for x in res:
            print(x['unit'], round(x.get('wall', 0), 1), x.get('count', {}).get('abstract_calls'))
    errs = [x for x in res if x['err']]
    if errs:
        for x in errs[:3]:
            print('ERROR in unit %r: %s' % (x['unit'], x['err']))
        return 2
    findings, count, gaps, samples, fns = {}, Counter(), [], [], set()
    for x in res:
        for k, f in x['findings'].items():
            if k in findings:
                findings[k]['entries'] += f['entries']
            else:
                findings[k] = f
        count.update(x['count'])
        gaps += x['gaps']
        samples += x['samples']
        fns.update(x['fns'])
    if hasattr(r, 'finish'):
        r.finish(findings, count)
    low = ['%s: %d < %d' % (k, count.get(k, 0), v) for k, v in r.MIN.items() if count.get(k, 0) < v]
    kn = known(pid)
    new_, old = [], []
    for k, f in sorted(findings.items()):
        (old if k in kn else new_).append(f)
    for f in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, f['key'], kn[f['key']]))
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for old_file in os.listdir(rdir):
        if old_file.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, old_file))
    for i, f in enumerate(new_):
        p = os.path.join(rdir, '%s-%d.txt' % (pid, i + 1))
        with open(p, 'w') as fh:
            fh.write('property  %s\nrule      %s\nat        %s:%s in %s\nconstruct %s\nwhy       %s\nentry     %s\ncall path %s\n%s\nkey       %s\n' % (
                pid, ' '.join((rulecls.__doc__ or '').split()), f['file'], f['line'], f['function'], f['construct'], f['message'], f['entry'],
                ' -> '.join(f['chain']), f['extra'], f['key']))
        print('%s:%s: %s: %s [%s] (reached from %s)' % (f['file'], f['line'], f['function'], f['message'], f['construct'], f['entry']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    wall = time.time() - t0
    if evidence:
        cov = {'explanation': ' '.join((rulecls.__doc__ or '').split()), 'units': len(units),
               'functions_analysed': len(fns), 'engine_gaps': len(gaps), 'gap_examples': [list(map(str, g)) for g in gaps[:5]],
               'counts': {k: v for k, v in sorted(count.items()) if v}, 'self_test': detail if ok else [],
               'samples': samples[:10], 'known_findings': [f['key'] for f in old],
               'violations': [f['key'] for f in new_]}
        ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
              'wall_s': round(wall, 2),
              'assumptions': getattr(rulecls, 'ASSUME', ['external libraries behave as modelled in sa/ext.py',
                                                         'calls are made with arguments of the documented kinds']),
              'violations': len(new_)}
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    if low and not new_:
        print('ERROR: fewer rule instances than confirmed: ' + '; '.join(low))
        return 2
    print('%s %s: %d new, %d known findings; %d abstract calls, %d functions, %d gaps, %.1fs'
          % (pid, tier, len(new_), len(old), count.get('abstract_calls', 0), len(fns), len(gaps), wall))
    return 1 if new_ else 0
