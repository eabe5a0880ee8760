"""C01: the most recent constraint governs each parameter."""
import random

import lib
from lib import fp, guarded
import dists

NAMES = ['a', 'b', 'c', 'd', 'e']


class World:
    """Real containers under test, driven by abstract operations."""

    def __init__(self, flavio, rng, kind, ev):
        self.f, self.rng, self.kind, self.ev = flavio, rng, kind, ev
        self.c = {}
        # concrete names of the abstract parameters
        self.key = {n: 'vfpar_%s' % n for n in NAMES}
        if kind == 'M':
            self.key['b'] = ('vfobs_b', 1.0, 6.0)
            self.key['c'] = ('vfobs_b', 6.0, 1.0)
        self.inv = {v: k for k, v in self.key.items()}
        self.gov = {}      # slot -> list of constrained names, as the driver believes (used to pick queries only)
        self.nm = 0

    def new(self, s):
        f = self.f
        if self.kind == 'C':
            self.c[s] = f.classes.Constraints()
        elif self.kind == 'P':
            self.c[s] = f.ParameterConstraints()
        elif self.kind == 'W':
            self.c[s] = f.classes.WilsonCoefficientPriors()
        else:
            self.nm += 1
            self.c[s] = f.Measurement('vf measurement %d' % self.nm)
        self.gov[s] = set()
        self.ev.append({'op': 'new', 'c': s})

    def add(self, s, ps):
        rng = self.rng
        if len(ps) == 1 and rng.random() < 0.35:
            # by string or dictionary
            m, sg = rng.randint(-40, 40), rng.randint(1, 9)
            spec = {'k': 'normal', 'mu': [m], 's': sg}
            r = rng.random()
            k = self.key[ps[0]]
            if r < 0.4:
                self.c[s].set_constraint(k, '%d(%d)' % (m, sg))
            elif r < 0.7:
                self.c[s].set_constraint(k, constraint_string='%d ± %d' % (m, sg))
            else:
                self.c[s].set_constraint(k, constraint_dict={'distribution': 'normal', 'central_value': m,
                                                             'standard_deviation': sg})
        else:
            spec, d = dists.mk(rng, len(ps), self.f)
            kw = {}
            if self.kind == 'P' and rng.random() < 0.5:
                kw = {'is_parameter_constraint': True}
            self.c[s].add_constraint([self.key[p] for p in ps], d, **kw)
        self.gov[s] |= set(ps)
        self.ev.append({'op': 'add', 'c': s, 'ps': list(ps), 'd': spec})

    def remove(self, s, p):
        self.c[s].remove_constraint(self.key[p])
        self.gov[s].discard(p)
        self.ev.append({'op': 'remove', 'c': s, 'ps': [p]})

    def copy(self, s, to):
        self.c[to] = self.c[s].copy()
        self.gov[to] = set(self.gov[s])
        self.ev.append({'op': 'copy', 'c': s, 'to': to})

    def back(self, k):
        return self.inv.get(k, 'unknown:' + repr(k))

    # --- observations
    def q_all(self, s):
        self.ev.append({'op': 'all', 'c': s, 'names': [self.back(k) for k in self.c[s].all_parameters]})

    def q_central(self, s):
        v = self.c[s].get_central_all()
        self.ev.append({'op': 'central', 'c': s, 'vals': {self.back(k): fp(x) for k, x in v.items()}})

    def q_central1(self, s, p):
        try:
            v, ex = self.c[s].get_central(self.key[p]), ''
        except Exception as e:
            v, ex = 0, lib.exc_name(e)
        self.ev.append({'op': 'central1', 'c': s, 'p': p, 'val': fp(v), 'raised': ex})

    def point(self, p):
        # never on the edge of a uniform range (whose two ends the library
        # treats differently); sometimes exactly at the central value
        c = self.c[self.cur].get_central_all().get(self.key[p])
        if c is not None and self.rng.random() < 0.3:
            return float(c)
        return self.rng.randint(-60, 60) + self.rng.choice([0.5, 0.25])

    def q_logp(self, s):
        rng = self.rng
        self.cur = s
        excl = [p for p in NAMES if rng.random() < rng.choice([0, 0, 0.3, 0.6])]
        x = {p: self.point(p) for p in NAMES}
        # values for parameters that cannot matter may be left out
        d = {self.key[p]: x[p] for p in NAMES
             if (p in self.gov[s] and p not in excl) or rng.random() < 0.5}
        items = list(d.items())
        rng.shuffle(items)
        delta = rng.random() < 0.4
        kw = {}
        if excl or rng.random() < 0.5:
            kw['exclude_parameters'] = rng.choice([list, tuple, set])(self.key[p] for p in excl)
        if delta or rng.random() < 0.3:
            kw['delta'] = delta
        r = self.c[s].get_logprobability_all(dict(items), **kw)
        self.ev.append({'op': 'logp', 'c': s, 'x': {p: fp(x[p]) for p in NAMES}, 'excl': excl, 'delta': delta,
                        'vals': [fp(v) for v in r.values()]})

    def q_single(self, s, p):
        self.cur = s
        x = self.point(p)
        delta = self.rng.random() < 0.4
        kw = {'delta': True} if delta else {}
        v = self.c[s].get_logprobability_single(self.key[p], x, **kw)
        self.ev.append({'op': 'single', 'c': s, 'p': p, 'x': fp(x), 'delta': delta, 'val': fp(v)})

    def q_errors(self, s):
        r = self.c[s].get_1d_errors_rightleft()
        self.ev.append({'op': 'errors', 'c': s, 'vals': {self.back(k): [fp(v[0]), fp(v[1])] for k, v in r.items()}})

    def q_random(self, s, n):
        import numpy as np
        if n == 0:
            r = [self.c[s].get_random_all() for _ in range(3)]
            draws = {self.back(k): [fp(x[k]) for x in r] for k in r[0]}
            m = 3
        else:
            r = self.c[s].get_random_all(size=n)
            draws = {self.back(k): [fp(y) for y in (v if np.ndim(v) == 1 else [None])] for k, v in r.items()}
            m = n
        self.ev.append({'op': 'random', 'c': s, 'n': m, 'draws': draws})

    def q_std(self, s):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = (self.c[s].get_1d_errors_random(N=200) if self.rng.random() < 0.6 else self.c[s].get_1d_errors(N=200))
        self.ev.append({'op': 'std', 'c': s, 'vals': {self.back(k): fp(v) for k, v in r.items()}})

    def observe(self, s, heavy=True):
        self.q_all(s)
        self.q_central(s)
        if not self.gov[s]:
            self.q_central1(s, self.rng.choice(NAMES))
        self.q_logp(s)
        if heavy:
            self.q_central1(s, self.rng.choice(NAMES))
            if self.gov[s]:
                self.q_single(s, self.rng.choice(sorted(self.gov[s])))
                self.q_errors(s)
                self.q_random(s, self.rng.choice([0, 4, 1]))
            self.q_logp(s)

    def cleanup(self):
        f = self.f
        for i in range(1, self.nm + 1):
            f.Measurement.instances.pop('vf measurement %d' % i, None)
        for n in list(f.Parameter.instances):
            if n.startswith('vfpar_'):
                del f.Parameter.instances[n]


def replay(flavio, rng, hist, ev, kind):
    """A behaviour generated from the specification, on the real code."""
    w = World(flavio, rng, kind, ev)
    w.new('s')
    for h in hist:
        if h['op'] == 'add':
            w.add('s', h['ps'])
        else:
            w.remove('s', h['ps'][0])
    w.observe('s', heavy=True)
    w.cleanup()


def random_history(flavio, rng, ev, length):
    w = World(flavio, rng, rng.choice('CPMW'), ev)
    w.new('s')
    slots = ['s']
    for k in range(length):
        s = rng.choice(slots)
        r = rng.random()
        if r < 0.55:
            n = rng.choice([1, 1, 2, 3])
            w.add(s, rng.sample(NAMES, n))
        elif r < 0.75:
            w.remove(s, rng.choice(NAMES))
        elif r < 0.83 and len(slots) < 3:
            t = 's%d' % len(slots)
            w.copy(s, t)
            slots.append(t)
        elif r < 0.87 and w.gov[s]:
            w.q_std(s)
        else:
            w.observe(s)
    for s in slots:
        w.observe(s)
    w.cleanup()


def shared_object(flavio, ev):
    """Two parameters constrained by one and the same distribution object."""
    ev.append({'op': 'new', 'c': 's'})
    c = flavio.classes.Constraints()
    d = flavio.statistics.probability.NormalDistribution(0, 1)
    c.add_constraint(['a'], d)
    ev.append({'op': 'add', 'c': 's', 'ps': ['a'], 'd': {'k': 'normal', 'mu': [0], 's': 1}})
    c.add_constraint(['b'], d)
    ev.append({'op': 'add', 'c': 's', 'ps': ['b'], 'd': {'k': 'normal', 'mu': [0], 's': 1}})
    r = c.get_logprobability_all({'a': 1.0, 'b': 3.0})
    ev.append({'op': 'logp', 'c': 's', 'x': {n: fp(v) for n, v in zip(NAMES, [1., 3., 0., 0., 0.])}, 'excl': [],
               'delta': False, 'vals': [fp(v) for v in r.values()], 'scenario': 'shared-distribution-object'})


def main():
    flavio = lib.load_flavio()
    import numpy as np
    rng = random.Random(lib.SEED)
    np.random.seed(lib.SEED)
    lib.model_check('ConstraintsMC', 'ConstraintsMC5.cfg' if lib.THOROUGH else 'ConstraintsMC.cfg')
    hists = lib.generate('ConstraintsMC', 'ConstraintsGen4.cfg' if lib.THOROUGH else 'ConstraintsGen.cfg')
    traces = []
    for h in hists:
        ev = []
        guarded(ev, replay, flavio, rng, h, ev, rng.choice('CPMW'))
        traces.append(ev)
    for k in range(1500 if lib.THOROUGH else 150):
        ev = []
        guarded(ev, random_history, flavio, rng, ev, rng.randint(4, 16))
        traces.append(ev)
    ev = []
    guarded(ev, shared_object, flavio, ev)
    traces.append(ev)
    bad = lib.judge('ConstraintsTrace', traces)

    def key(b):
        return (b.get('observed') or {}).get('scenario')
    return lib.finish('C01', bad, 'model_checking',
                      'every history of up to %d add/remove operations over 3 names (generated by TLC, replayed on the real '
                      'containers), plus random histories over 5 names with copies; all observations judged by TLC'
                      % (4 if lib.THOROUGH else 3), key=key)
