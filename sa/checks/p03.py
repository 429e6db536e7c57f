"""P03: the seed argument controls every draw."""
from ..check import *

SEED_PARAMS = ('seed', 'random_state')


class CHECK(Rule):
    """Dataflow of the seed argument through every public callable that has one.  Called with a seed (including 0), every random draw on every
    path happens after the global generator was seeded from that argument, or uses a generator built from it; called without one, draws come from
    numpy's global generator, which is not reseeded, so that a seed the user set beforehand stays in force.  Entropy-seeded, constant-seeded
    and C library generators are violations on either side."""
    pid = 'P03'
    dims = (2, 3)
    MIN = {'seeded_draws': 20, 'unseeded_draws': 20}

    FIXTURE = '''
import numpy as np

def bad_falsy(n, seed=None):
    if seed:
        np.random.seed(seed)
    return np.random.uniform(size=n)

def bad_ignored(n, seed=None):
    return np.random.uniform(size=n)

def bad_entropy(n, seed=None):
    rng = np.random.default_rng()
    return rng.uniform(size=n)

def bad_always(n, seed=None):
    np.random.seed(seed)
    return np.random.uniform(size=n)

def bad_late(n, seed=None):
    u = np.random.uniform(size=n)
    if seed is not None:
        np.random.seed(seed)
    return u + np.random.uniform(size=n)

def bad_const(n, seed=None):
    np.random.seed(1 if seed is None else seed)
    return np.random.uniform(size=n)

def good_global(n, seed=None):
    if seed is not None:
        np.random.seed(seed)
    return np.random.uniform(size=n)

def good_generator(n, seed=None):
    rng = np.random if seed is None else np.random.RandomState(seed)
    return rng.uniform(size=n)

def good_pass(n, seed=None):
    return good_global(n, seed)
'''

    def start(self, S):
        super().start(S)
        self.mode = None

    def walk_instance(self, S, inst):
        self.seeded_queries(S, inst, inst.st)
        st = self.settle(S, inst)
        if st is not inst.st:
            self.seeded_queries(S, inst, st)

    def seeded_queries(self, S, inst, st):
        for c in query_calls(S, inst, st):
            if c.kind == 'call' and self.has_seed(S, S.ip.lookup_cls(inst.cls, c.name, st)):
                self.do(c, 'query')

    def has_seed(self, S, v):
        sg = signature(S, v) if v is not None else None
        return sg is not None and any(n in SEED_PARAMS for n, _, _ in sg[0])

    def walk_functions(self, S, part, parts):
        self.func_filter = lambda c: self.has_seed(S, c.fv)
        Rule.walk_functions(self, S, part, parts)

    def pre_call(self, c):
        self.mode = None
        if self.phase == 'mutator':
            return
        kw = c.kw
        v = next((kw[n] for n in SEED_PARAMS if n in kw), None)
        self.mode = 'none' if v is None or v.const() == (True, None) else ('seed' if 'seed' in v.deps else None)
        if v is not None and len(v.alts) > 1:
            self.mode = None

    def post_call(self, c):
        self.mode = None

    def on_rng(self, op, gen, name, st, node, cx, value=None, **k):
        if self.mode is None:
            return
        if op == 'draw':
            self.count['seeded_draws' if self.mode == 'seed' else 'unseeded_draws'] += 1
            f = st.facets.get('rng', frozenset())
            if gen == 'libc':
                self.report(node, cx, src(node), 'draws from the C library generator, which the seed does not control')
            elif gen in ('entropy', 'python'):
                self.report(node, cx, src(node), 'draws from a generator the seed does not control')
            elif gen == 'const':
                self.report(node, cx, src(node), 'draws from a generator with a fixed seed')
            elif self.mode == 'seed' and gen == 'global' and not (f and f <= {'seed'}):
                self.report(node, cx, src(node), 'draws from the global generator on a path where the given seed was not applied')
            elif self.mode == 'none' and gen == 'global' and f & {'const', 'none', 'other'}:
                self.report(node, cx, src(node), 'draws from a generator that was reseeded although no seed was given')
        elif op == 'seed' and gen == 'global' and self.mode == 'none':
            if isinstance(value.single() if value is not None else None, Opq) and value.single().hint == 'rngstate':
                return
            self.report(node, cx, src(node), 'reseeds the global generator although no seed was given')
