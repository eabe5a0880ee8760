"""C08: likelihoods and predictions never use stale values."""
import math
import random
import warnings

import lib
from lib import fp, bits, guarded

PARS = ['vfq_a', 'vfq_b', 'vfq_c']
TOYS = ['vft_x', 'vft_y', 'vft_z']
REALS = ['vfr_match', 'vfr_run', 'vfr_wcxf', 'BR(Bs->mumu)']
CKM = ['Vus', 'Vcb', 'Vub', 'gamma']
SCALE = 160
COEFF = 'VedLL_2223'


class Setup:
    """test parameters and observables; remembers fresh values"""

    def __init__(self, flavio, rng):
        import wilson
        self.f, self.wilson, self.rng = flavio, wilson, rng
        f = flavio
        self.toy = {}
        for t in TOYS:
            f.Observable(t)
            d = {'c0': rng.randint(-9, 9), 'pc': [rng.choice([-3, -2, -1, 1, 2, 3]) for _ in PARS],
                 'wk': 0 if t == 'vft_x' else rng.choice([-2, 1, 3])}
            self.toy[t] = d

            def fct(wc, par, d=d):
                v = d['c0'] + sum(c * par[p] for c, p in zip(d['pc'], PARS))
                if d['wk']:
                    x = wc.get_wc('sb', SCALE, par, eft='WET', basis='JMS')[COEFF]
                    v += d['wk'] * complex(x).real * 1e9
                return v
            f.classes.Prediction(t, fct)

        def match(wc, par):
            x = wc.get_wc('bsmumu', SCALE, par)
            return complex(x['C9_bsmumu']).real + 3 * complex(x['C9_bsmumu']).imag + par['vfq_a']

        def run(wc, par):
            x = wc.get_wc('bsmumu', 4.8, par)
            return complex(x['C9_bsmumu']).real + 3 * complex(x['C9_bsee']).real + par['vfq_b']

        def wcxf(wc, par):
            x = wc.get_wcxf('sb', 4.8, par).dict
            return complex(x.get('C10_bsmumu', 0)).real + complex(x.get('C9_bsee', 0)).imag + par['vfq_c']
        for n, fct in (('vfr_match', match), ('vfr_run', run), ('vfr_wcxf', wcxf)):
            f.Observable(n)
            f.classes.Prediction(n, fct)
        self.base = f.default_parameters.get_central_all()
        self.ckm = {'k1': {k: self.base[k] for k in CKM},
                    'k2': {'Vus': self.base['Vus'] * 1.01, 'Vcb': 0.0395, 'Vub': 3.1e-3, 'gamma': 1.05},
                    'k3': {'Vus': self.base['Vus'], 'Vcb': self.base['Vcb'], 'Vub': self.base['Vub'],
                           'gamma': self.base['gamma'] * (1 + 1e-9)}}
        self.contents = {0: None, 1: 1, 2: -2, 3: -1}
        self.freshval = {}
        self.points = {}

    def wcdict(self, c):
        if c == 0:
            return {}
        return {COEFF: self.contents[c] * 1e-9, 'VdeLR_2322': 2e-10}

    def point(self, ckm, vals):
        """a parameter dictionary and its name"""
        name = ckm + ':' + ','.join(float(v).hex() for v in vals)
        self.points[name] = (ckm, vals)
        return name

    def par(self, name):
        ckm, vals = self.points[name]
        d = dict(self.base)
        d.update(self.ckm[ckm])
        d.update(zip(PARS, vals))
        return d

    def make(self, kind, c):
        if kind == 'wilson':
            return self.wilson.Wilson(self.wcdict(c), SCALE, 'WET', 'JMS')
        w = self.f.WilsonCoefficients()
        if c:
            w.set_initial(self.wcdict(c), SCALE, 'WET', 'JMS')
        return w

    def fresh(self, c, q, ckm, p, obs):
        """a new object of flavio's own kind, with explicit options"""
        k = (c, q, ckm, p, obs)
        if k not in self.freshval:
            w = self.make('flavio', c)
            if q != 1:
                w.set_option('qcd_order', q)
            if ckm != 'default' and c:
                w.set_option('parameters', dict(self.ckm[ckm]))
            v = self.f.Observable[obs].prediction_par(self.par(p), w)
            self.freshval[k] = bits(v)
        return {'op': 'fresh', 'c': c, 'q': q, 'ckm': ckm, 'p': p, 'obs': obs, 'val': self.freshval[k]}


class Run:
    def __init__(self, s, rng):
        self.s, self.rng, self.ev = s, rng, []
        self.f = s.f
        for c, x in s.contents.items():
            self.ev.append({'op': 'content', 'c': c, 'x': fp(x or 0)})
        for t, d in s.toy.items():
            self.ev.append(dict(d, op='toy', t=t))
        self.o = {}         # id -> [object, kind, c, q, ckm]
        self.seen = set()
        self.liks = []
        self.meas = {}

    def close(self):
        for m in self.meas:
            self.f.Measurement.instances.pop('vf fresh ' + m, None)

    def measurement(self, m):
        rng = self.rng
        mo = self.f.Measurement('vf fresh ' + m)
        cons = []
        for t in TOYS:
            if m == 'all' or rng.random() < 0.5:
                mu, s = rng.randint(-20, 20), rng.randint(5, 40)
                mo.add_constraint([t], self.f.statistics.probability.NormalDistribution(mu, s))
                cons.append({'t': t, 'mu': mu, 's': s})
        if m == 'all':
            for r in REALS:
                mo.add_constraint([r], self.f.statistics.probability.DeltaDistribution(0))
        self.meas[m] = cons
        self.tell()

    def drop(self, m):
        del self.f.Measurement['vf fresh ' + m]
        del self.meas[m]
        self.tell()

    def tell(self):
        self.ev.append({'op': 'meas', 'meas': [c for c in self.meas.values()]})

    def likelihoods(self):
        L = self.f.statistics.likelihood
        rng = self.rng
        self.toyliks = [L.MeasurementLikelihood(list(TOYS)),
                        L.Likelihood(self.f.default_parameters, [], list(reversed(TOYS)))]
        rl = L.MeasurementLikelihood(rng.sample(TOYS + REALS, len(TOYS + REALS)))
        self.liks = self.toyliks + [rl]

    def use(self, p):
        if p not in self.seen:
            ckm, v = self.s.points[p]
            self.ev.append({'op': 'point', 'p': p, 'ckm': ckm, 'v': [fp(x) for x in v]})
            self.seen.add(p)

    def new(self, o, kind, c):
        self.o[o] = [self.s.make(kind, c), kind, c, 1, 'default']
        self.ev.append({'op': 'new', 'o': o, 'kind': kind, 'c': c})

    def init(self, o, c):
        """give an object a new content"""
        x = self.o[o]
        if x[1] == 'wilson':
            x[0] = None     # the old object dies before the new one is born
            x[0] = self.s.make('wilson', c)
        elif self.rng.random() < 0.5:
            x[0].set_initial(self.s.wcdict(c), SCALE, 'WET', 'JMS')
        else:
            from wilson import wcxf
            x[0].set_initial_wcxf(wcxf.WC('WET', 'JMS', SCALE, self.s.wcdict(c)))
        x[2:] = [c, 1, 'default']
        self.ev.append({'op': 'init', 'o': o, 'c': c})

    def opt(self, o, q):
        self.o[o][0].set_option('qcd_order', q)
        self.o[o][3] = q
        self.ev.append({'op': 'opt', 'o': o, 'q': q})

    def ckmopt(self, o, ckm):
        self.o[o][0].set_option('parameters', dict(self.s.ckm[ckm]))
        if self.o[o][1] == 'flavio':
            self.o[o][4] = ckm
        self.ev.append({'op': 'ckmopt', 'o': o, 'ckm': ckm})

    def fresh(self, o, p, obs):
        x, kind, c, q, ckm = self.o[o]
        eff = self.s.points[p][0] if kind == 'wilson' else ckm
        k = (c, q, eff, p, obs)
        if k not in self.seen:
            self.seen.add(k)
            self.ev.append(self.s.fresh(*k))

    def eval(self, o, p, how, shared=None):
        self.use(p)
        w = self.o[o][0]
        par = shared if shared is not None else self.s.par(p)
        rng = self.rng
        if how == 'lik':
            lik = rng.choice(self.liks)
            ml = lik.measurement_likelihood if lik is self.toyliks[1] else lik
            r = rng.random()
            if lik in self.toyliks and r < 0.5:
                if lik is ml:
                    v = ml.log_likelihood_par(par, w)
                else:
                    v = rng.choice([lik.log_likelihood, lik.log_likelihood_exp])(par, w)
                self.ev.append({'op': 'll', 'o': o, 'p': p, 'val': fp(v)})
                return
            vals = ml.get_predictions_par(par, w)
            if rng.random() < 0.2:
                out = dict(vals)
                vals.clear()        # the caller owns what it is given
                vals = out
        elif how == 'par':
            vals = {}
            for n in rng.sample(TOYS + REALS, rng.randint(1, 6)):
                vals[n] = self.f.Observable[n].prediction_par(par, w)
        else:       # default parameters of flavio, changed in between
            ckm, v = self.s.points[p]
            dp = self.f.default_parameters
            keep = self.f.default_parameters.copy()
            try:
                for k, x in list(self.s.ckm[ckm].items()) + list(zip(PARS, v)):
                    dp.set_constraint(k, constraint_dict={'distribution': 'delta', 'central_value': x})
                vals = {}
                for n in rng.sample(TOYS + REALS, rng.randint(1, 3)):
                    vals[n] = self.f.np_prediction(n, w)
            finally:
                dp._constraints, dp._parameters = keep._constraints, keep._parameters
        for n in vals:
            self.fresh(o, p, n)
        self.ev.append({'op': 'eval', 'o': o, 'p': p, 'how': how,
                        'vals': [{'obs': n, 'val': bits(v), 'num': fp(v)} for n, v in vals.items()]})


def variants(rng):
    """values of a parameter that are easily confused"""
    x = rng.choice([1.0, -1.0, 2.0, 0.5, 7.0])
    return rng.choice([(-1.0, -2.0), (-2.0, -1.0), (x, -x), (x, math.nextafter(x, 9)), (x, x * (1 + 1e-9)), (x, x + 1), (0.0, x),
                       (float(2**61 - 1), 0.0), (x, x + float(2**61 - 1))])


def replay(s, rng, hist):
    """a history of the model: likelihood and objects shared throughout"""
    r = Run(s, rng)
    try:
        r.measurement('all')
        r.likelihoods()
        r.liks = [rng.choice(r.liks)]
        a, b = variants(rng)
        i = rng.randrange(3)
        v1, v2 = [[float(rng.randint(-3, 3))] * 3 for _ in (1, 2)]
        v2 = list(v1)
        v1[i], v2[i] = a, b
        k2 = rng.choice(['k2', 'k3'])
        P = {1: s.point('k1', v1), 2: s.point('k1', v2), 3: s.point(k2, v1)}
        cs = dict(zip((1, 2), rng.sample([0, 1, 1, 2, 3], 2)))
        if not cs[1]:
            cs = {1: cs[2], 2: 0}
        r.new('A', 'wilson', cs[1])
        r.new('B', 'flavio', cs[1])
        for h in hist:
            guarded(r.ev, step, r, h, P, cs, k2)
    finally:
        r.close()
    return r.ev


def step(r, h, P, cs, k2):
    if h['op'] == 'E':
        r.eval(h['o'], P[h['p']], 'lik')
    elif h['op'] == 'D':
        r.eval(h['o'], P[h['p']], r.rng.choice(['par', 'par', 'par', 'default']))
    elif h['op'] == 'O':
        r.opt(h['o'], h['x'])
    elif h['op'] == 'C':
        r.ckmopt(h['o'], k2)
    else:
        r.init(h['o'], cs[h['x']])


def walk(s, rng, n):
    r = Run(s, rng)
    try:
        r.measurement('all')
        r.likelihoods()
        a, b = variants(rng), variants(rng)
        P = [s.point(k, [x, y, 1.0]) for k in ('k1', rng.choice(['k2', 'k3'])) for x in a for y in b]
        kinds = ['wilson', 'flavio']
        r.new('A', 'wilson', 1)
        r.new('B', 'flavio', rng.choice([0, 1, 2]))
        shared = s.par(P[0])
        for _ in range(n):
            x = rng.random()
            o = rng.choice(sorted(r.o))
            if x < 0.55:
                p = rng.choice(P)
                if rng.random() < 0.3:
                    # the same dictionary, changed in place
                    shared.update(s.par(p))
                    guarded(r.ev, r.eval, o, p, rng.choice(['lik', 'lik', 'par']), shared)
                else:
                    guarded(r.ev, r.eval, o, p, rng.choice(['lik', 'lik', 'lik', 'par', 'par', 'default']))
            elif x < 0.65:
                # temporary object
                r.new('T', rng.choice(kinds), rng.choice([0, 1, 2, 3]))
                guarded(r.ev, r.eval, 'T', rng.choice(P), 'lik')
                del r.o['T']
            elif x < 0.75:
                guarded(r.ev, r.init, o, rng.choice([0, 1, 2, 3]))
            elif x < 0.83:
                if r.o[o][2]:
                    guarded(r.ev, r.opt, o, rng.choice([0, 1]))
            elif x < 0.88:
                if r.o[o][2]:
                    guarded(r.ev, r.ckmopt, o, rng.choice(['k1', 'k2']))
            elif x < 0.92 and 'extra' in r.meas:
                r.drop('extra')
            else:
                r.measurement('extra')
    finally:
        r.close()
    return r.ev


def main():
    flavio = lib.load_flavio()
    import flavio.statistics.likelihood
    warnings.simplefilter('ignore')
    rng = random.Random(lib.SEED)
    hists = lib.generate('FreshnessMC', 'FreshnessMC4.cfg', timeout=900)
    lib.COV.notes['models_refuted'] = ['KeyHash', 'Stale']
    s = Setup(flavio, rng)
    traces = []
    hists = rng.sample(hists, min(len(hists), 8000 if lib.THOROUGH else 600))
    for h in hists:
        traces.append(replay(s, rng, h))
    for _ in range(600 if lib.THOROUGH else 60):
        traces.append(walk(s, rng, rng.randint(8, 30)))
    bad = lib.judge('FreshnessTrace', traces)
    return lib.finish('C08', bad, 'model_checking',
                      'all histories of four operations on two shared coefficient objects, three parameter points and a shared likelihood (TLC, sampled), '
                      'and longer random histories with temporary objects and changing measurements')
