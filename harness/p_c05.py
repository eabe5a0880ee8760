"""C05: saving and reloading constraints preserves them."""
import os
import random
import warnings

import numpy as np
import yaml
import lib
from lib import fp, guarded
import p_c01

NAMES = p_c01.NAMES
UNI = ['normal', 'npnormal', 'delta', 'uniform', 'duniform', 'asym', 'half', 'gul', 'lognormal', 'gamma', 'gammapos', 'count', 'count2',
       'gamul', 'ggpos', 'ggcount', 'ggul', 'num', 'numc', 'kde', 'kdeb', 'kdek']
MULTI = ['mvn', 'mvnarr', 'mvnsd', 'mvnum', 'mvnumc', 'mvnum2']


def any_dist(rng, n, P):
    """One of all kinds, with arguments of all accepted types."""
    r = np.random.RandomState(rng.randint(0, 10**6))
    m, s = round(rng.uniform(-9, 9), 3), round(rng.uniform(0.2, 4), 3)
    f = rng.choice([float, np.float64, np.float32, lambda x: int(x) + 1])
    if n == 1:
        k = rng.choice(UNI)
        cnt = rng.randint(1, 7)
        b = round(rng.uniform(0.1, cnt), 2)
        data = [round(float(x), 4) for x in r.normal(m, s, rng.choice([20, 60]))]
        x = np.linspace(m, m + 5 * s, 20)
        y = r.uniform(0.5, 1, 20)
        return {
            'normal': lambda: P.NormalDistribution(f(m), f(s)),
            'npnormal': lambda: P.NormalDistribution(np.array([m, s])[0], np.int64(2)),
            'delta': lambda: P.DeltaDistribution(f(m)),
            'uniform': lambda: P.UniformDistribution(m, f(s)),
            'duniform': lambda: P.DiscreteUniformDistribution(-3, 7, rng.choice([None, -3, 0, 4])),
            'asym': lambda: P.AsymmetricNormalDistribution(f(m), right_deviation=s, left_deviation=f(2 * s)),
            'half': lambda: P.HalfNormalDistribution(f(m), f(s)),
            'gul': lambda: P.GaussianUpperLimit(f(s), 0.9),
            'lognormal': lambda: P.LogNormalDistribution(m or 1., 1 + s),
            'gamma': lambda: P.GammaDistribution(cnt + 1, -s, s),
            'gammapos': lambda: P.GammaDistributionPositive(cnt, -0.3 * s, s),
            'count': lambda: P.GammaCountingProcess(scale_factor=s, counts_total=cnt, counts_background=b),
            'count2': lambda: P.GammaCountingProcess(scale_factor=s, counts_total=cnt, counts_signal=round(cnt - b, 2)),
            'gamul': lambda: P.GammaUpperLimit(limit=s, confidence_level=0.9, counts_total=cnt, counts_background=b),
            'ggpos': lambda: P.GeneralGammaDistributionPositive(a=cnt + 1, loc=-b, scale=s, gaussian_standard_deviation=0.2 * s),
            'ggcount': lambda: P.GeneralGammaCountingProcess(scale_factor=s, counts_total=cnt, counts_background=b, background_std=0.3),
            'ggul': lambda: P.GeneralGammaUpperLimit(limit=s, confidence_level=0.9, counts_total=cnt, counts_background=b, background_std=0.3),
            'num': lambda: P.NumericalDistribution(x, y) if rng.random() < 0.5 else P.NumericalDistribution(list(x), list(y)),
            'numc': lambda: P.NumericalDistribution(x, y, central_value=float(x[rng.randint(2, 15)])),
            'kde': lambda: P.GaussianKDE(data if rng.random() < 0.5 else np.array(data)),
            'kdeb': lambda: P.GaussianKDE(np.array(data), bandwidth=0.3 * s, n_bins=rng.choice([None, 15])),
            'kdek': lambda: P.KernelDensityEstimate(data, P.NormalDistribution(0, f(0.4 * s)))}[k]()
    ks = MULTI if n == 2 else MULTI[:3]
    k = rng.choice(ks)
    mu = [round(rng.uniform(-9, 9), 3) for _ in range(n)]
    sd = [round(rng.uniform(0.5, 4), 3) for _ in range(n)]
    rho = rng.choice([0, 0.3, 0.8, -0.2])
    cov = [[sd[a] * sd[c] * (1 if a == c else rho) for c in range(n)] for a in range(n)]
    if k == 'mvn':
        return P.MultivariateNormalDistribution(mu, covariance=cov)
    if k == 'mvnarr':
        return P.MultivariateNormalDistribution(np.array(mu), covariance=np.array(cov))
    if k == 'mvnsd':
        return P.MultivariateNormalDistribution([np.float64(x) for x in mu], standard_deviation=np.array(sd), correlation=rho)
    xi = [np.linspace(mu[a], mu[a] + 3 * sd[a], N) for a, N in ((0, 6), (1, 7))]
    y = r.uniform(0.5, 1, (6, 7))
    if k == 'mvnum':
        return P.MultivariateNumericalDistribution(xi, y)
    if k == 'mvnum2':
        return P.MultivariateNumericalDistribution([list(map(float, x)) for x in xi], y.tolist())
    return P.MultivariateNumericalDistribution(xi, y, central_value=[float(xi[0][2]), float(xi[1][3])])


class World(p_c01.World):
    opaque = False
    meta = None

    def new(self, s):
        super().new(s)
        if self.kind == 'M':
            for a in ('inspire', 'hepdata', 'experiment', 'url', 'description', 'vf_extra', 'vfID', 'Year', 'vf_ä'):
                if self.rng.random() < 0.5:
                    setattr(self.c[s], a, self.rng.choice(['text %s' % a, 'a: b', 'Ünicode ± #1', "it's", '1.0', 'yes']))

    def add_any(self, s, ps):
        d = any_dist(self.rng, len(ps), self.f.statistics.probability)
        self.c[s].add_constraint([self.key[p] for p in ps], d)
        self.gov[s] |= set(ps)
        self.opaque = True
        self.ev.append({'op': 'add', 'c': s, 'ps': list(ps), 'd': {'k': 'opaque'}})

    def name(self, s):
        return self.c[s].name if self.kind == 'M' else None

    def dump(self, s, to, ontop=None):
        """save s and load it as `to` (or on top of an existing container)"""
        rng, f, c = self.rng, self.f, self.c[s]
        pn = rng.choice(['observables' if self.kind == 'M' else 'parameters', 'parameters', 'things'])
        forms = ['yaml', 'dict', 'stream']
        if self.kind in 'PM' and ontop is None:
            forms += ['file', 'file']
        form = rng.choice(forms) if ontop is None else rng.choice(['yaml', 'dict'])
        before = self.view(s)
        kw = {'pname': pn}
        inputkept = True
        d1 = c.get_yaml_dict(**kw)
        y1 = c.get_yaml(**kw)
        data = d1['constraints'] if isinstance(d1, dict) else d1
        names = [self.back(tuple(p) if isinstance(p, list) else p) for x in data for p in x[pn]]
        again = y1 == c.get_yaml(**kw) and y1 == yaml.dump(c.get_yaml_dict(**kw))
        cls = type(c)
        if ontop is not None:
            kw['instance'] = self.c[ontop]
        if form == 'yaml':
            R = cls.from_yaml(y1, **kw)
        elif form == 'stream':
            import io
            R = cls.from_yaml(io.StringIO(y1), **kw)
        elif form == 'dict':
            y = yaml.dump(d1)
            R = cls.from_yaml_dict(d1, **kw)
            inputkept = yaml.dump(d1) == y
        else:
            mod = f.measurements if self.kind == 'M' else f.parameters
            path = os.path.join(lib.scratch(), 'vf_%d.yml' % rng.randint(0, 10**9))
            if self.kind == 'M':
                other = f.Measurement('vf measurement 99')
                other.add_constraint(['vfobs_other'], f.statistics.probability.NormalDistribution(1, 2))
                lst = [c.name if rng.random() < 0.5 and f.Measurement.instances.get(c.name) is c else c, 'vf measurement 99']
                mod.write_file(path, lst)
                got = mod.read_file(path)
                assert got == [c.name, 'vf measurement 99'], got
                R = f.Measurement[c.name]
                del f.Measurement.instances['vf measurement 99']
            else:
                mod.write_file(path, c)
                R = mod.read_file(path)
            os.remove(path)
        if self.kind == 'M' and form != 'dict':
            assert f.Measurement[c.name] is (R if ontop is None else f.Measurement[c.name])
        self.ev.append({'op': 'dumped', 'c': s, 'names': names, 'again': again, 'inputkept': inputkept,
                        'unchanged': before == self.view(s) and y1 == c.get_yaml(pname=pn)})
        self.c[to] = R
        if ontop is None:
            self.gov[to] = set(self.gov[s])
            self.ev.append({'op': 'dumpload', 'c': s, 'to': to, 'form': form})
            self.pair(s, to)
        else:
            self.gov[to] |= set(self.gov[s])
            self.ev.append({'op': 'loadon', 'c': s, 'to': to})

    def errs(self, c):
        # documented: one-dimensional errors are not available for
        # multivariate numerical distributions
        try:
            return c.get_1d_errors_rightleft()
        except NotImplementedError:
            return {}

    def view(self, s, x=None):
        c = self.c[s]
        if x is None:
            x = {p: float(v) for p, v in c.get_central_all().items()}
        meta = {k: str(v) for k, v in c.__dict__.items() if k[0] != '_'} if self.kind == 'M' else {}
        with np.errstate(all='ignore'):
            return {'central': {self.back(p): [fp(v)] for p, v in c.get_central_all().items()},
                    'errors': {self.back(p): [fp(v) for v in e] for p, e in self.errs(c).items()},
                    'single': {self.back(p): [fp(c.get_logprobability_single(p, x[p])), fp(c.get_logprobability_single(p, x[p], delta=True))]
                               for p in c.all_parameters if p in x},
                    'total': [fp(sum(float(v) for v in c.get_logprobability_all(x).values()))], 'meta': meta}

    def pair(self, s, t):
        rng = self.rng
        cen = self.c[s].get_central_all()
        err = self.errs(self.c[s])
        x = {p: float(cen[p] + rng.uniform(-0.8, 0.8) * (err[p][0] if p in err and err[p][0] < 1e10 else 0.3)) if rng.random() < 0.8 else float(cen[p])
             for p in cen}
        # a loaded container with other content is rejected, not crashed on
        y = dict(x)
        for p in self.c[t].all_parameters:
            y.setdefault(p, 0.1)
        self.ev.append({'op': 'pair', 'c': s, 'to': t, 'a': self.view(s, x), 'b': self.view(t, y)})


def replay(flavio, rng, hist, ev, kind, opaque):
    w = World(flavio, rng, kind, ev)
    try:
        w.new('s')
        for h in hist:
            if h['op'] == 'add':
                (w.add_any if opaque else w.add)('s', h['ps'])
            else:
                w.remove('s', h['ps'][0])
        w.dump('s', 't')
        if not opaque:
            w.observe('t', heavy=rng.random() < 0.3)
    finally:
        w.cleanup()


def random_history(flavio, rng, ev, length):
    w = World(flavio, rng, rng.choice('CPMW'), ev)
    try:
        w.new('s')
        opaque = rng.random() < 0.6
        n = 1
        cur = 's'
        for k in range(length):
            r = rng.random()
            if r < 0.55:
                ps = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
                if opaque and rng.random() < 0.8:
                    w.add_any(cur, ps)
                else:
                    w.add(cur, ps)
            elif r < 0.75:
                w.remove(cur, rng.choice(NAMES))
            elif r < 0.9:
                t = 't%d' % n
                n += 1
                w.dump(cur, t)
                if rng.random() < 0.5:
                    cur = t
            elif w.kind in 'CPW':
                # load on top of a container that has other content
                t = 't%d' % n
                n += 1
                w.new(t)
                for _ in range(2):
                    w.add(t, rng.sample(NAMES, rng.choice([1, 2])))
                w.dump(cur, t, ontop=t)
                w.q_all(t)
                if not opaque:
                    w.observe(t)
        w.dump(cur, 'last')
        if not opaque:
            w.observe('last')
    finally:
        w.cleanup()


def main():
    flavio = lib.load_flavio()
    warnings.simplefilter('ignore')
    rng = random.Random(lib.SEED)
    np.random.seed(lib.SEED)
    lib.model_check('SaveLoadMC', 'SaveLoadMC.cfg')
    hists = lib.generate('SaveLoadMC', 'SaveLoadGen.cfg')
    traces = []
    if not lib.THOROUGH:
        hists = rng.sample(hists, 500)
    for h in hists:
        ev = []
        guarded(ev, replay, flavio, rng, h, ev, rng.choice('CPMW'), rng.random() < 0.4)
        traces.append(ev)
    for k in range(1200 if lib.THOROUGH else 120):
        ev = []
        guarded(ev, random_history, flavio, rng, ev, rng.randint(3, 9))
        traces.append(ev)
    bad = lib.judge('ConstraintsTrace', traces)
    return lib.finish('C05', bad, 'model_checking',
                      'histories of 3 add/remove operations over 3 names generated by TLC and random ones over 5 names with all distribution '
                      'kinds, saved in all forms and reloaded')
