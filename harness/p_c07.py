"""C07: a likelihood counts each selected measured observable exactly once."""
import random
import warnings

import numpy as np

import lib
from lib import fp, guarded
import dists


OBS = ['a', 'b', 'c', 'd', 'e']
ARGS = {'a': None, 'b': ['x'], 'c': ['x'], 'd': ['lo', 'hi'], 'e': None}
PARS = ['vflp0', 'vflp1', 'vflp2', 'vflp3']
MNAME = {'m1': 'vf meas 1', 'm2': 'vf Meas 2', 'm3': 'vf meas 10', 'P': 'Pseudo-measurement for vf', 'zz': 'vf nobody'}


class World:
    def __init__(self, flavio, rng):
        self.f, self.rng, self.ev = flavio, rng, []
        f = flavio
        self.before = set(f.Measurement.instances)
        self.key = {'a': 'vflo_a', 'e': 'vflo_e', 'b': ('vflo_b', 2), 'c': ('vflo_b', 3), 'd': ('vflo_d', 1, 6)}
        for name, args in (('vflo_a', None), ('vflo_e', None), ('vflo_b', ['x']), ('vflo_d', ['lo', 'hi'])):
            o = f.Observable(name, arguments=args)
            n = len(args or [])
            co = {'c0': rng.randint(-20, 20), 'ac': [rng.randint(-5, 5) for _ in range(n)],
                  'pn': rng.sample(PARS, 2), 'pc': [rng.choice([-2, -1, 1, 2, 3]) for _ in range(2)]}

            def fct(wc, par, *a, co=co, args=args, **k):
                v = [k[x] for x in args[len(a):]] if args else []
                v = list(a) + v
                return co['c0'] + sum(c * x for c, x in zip(co['ac'], v)) + sum(c * par[p] for c, p in zip(co['pc'], co['pn']))
            f.classes.Prediction(name, fct)
            for k, key in self.key.items():
                if (key if isinstance(key, str) else key[0]) == name:
                    self.ev.append({'op': 'pred', 'o': k, 'd': dict(co, av=list(key[1:]) if n else [])})
        self.inv = {v: k for k, v in self.key.items()}
        self.ms = {}
        self.gov = {}
        self.L = {}
        self.par = None

    def close(self):
        f = self.f
        for n in ('vflo_a', 'vflo_e', 'vflo_b', 'vflo_d'):
            f.Observable.instances.pop(n, None)
        for m in list(f.Measurement.instances):
            if m not in self.before:
                del f.Measurement.instances[m]
        for p in PARS:
            f.Parameter.instances.pop(p, None)

    def meas(self, m, groups):
        self.ms[m] = self.f.Measurement(MNAME[m])
        self.gov[m] = set()
        self.ev.append({'op': 'meas', 'm': m, 'pseudo': m == 'P'})
        for g in groups:
            self.add(m, g)

    def add(self, m, ps):
        spec, d = dists.mk(self.rng, len(ps), self.f)
        self.ms[m].add_constraint([self.key[p] for p in ps], d)
        self.gov[m] |= set(ps)
        self.ev.append({'op': 'add', 'm': m, 'ps': list(ps), 'd': spec})

    def remove(self, m, p):
        self.ms[m].remove_constraint(self.key[p])
        self.gov[m].discard(p)
        self.ev.append({'op': 'remove', 'm': m, 'p': p})

    def delete(self, m):
        if self.rng.random() < 0.5:
            del self.f.Measurement[MNAME[m]]
        else:
            self.f.Measurement.del_instance(MNAME[m])
        del self.ms[m], self.gov[m]
        self.ev.append({'op': 'del', 'm': m})

    def parameters(self):
        rng = self.rng
        self.par = self.f.ParameterConstraints()
        ps = rng.sample(PARS, rng.randint(2, 4))
        while ps:
            g, ps = ps[:rng.choice([1, 1, 2])], ps[rng.choice([1, 2]):]
            self.add_par(g)

    def add_par(self, g):
        spec, d = dists.mk(self.rng, len(g), self.f, kinds=('normal', 'uniform', 'asym'))
        self.par.add_constraint(list(g), d)
        self.ev.append({'op': 'par', 'ps': list(g), 'd': spec})

    def new(self, l, L, full):
        """build a likelihood"""
        rng, f = self.rng, self.f
        kw = {}
        names = [MNAME[m] for m in L['names']]
        if L['sel'] == 'incl':
            kw['include_measurements'] = names
            if rng.random() < 0.2 and names:
                kw['exclude_measurements'] = rng.choice([None, []])
        elif L['sel'] == 'excl':
            kw['exclude_measurements'] = names
            if rng.random() < 0.2:
                kw['include_measurements'] = rng.choice([None, []])
        if L['pseudo'] or rng.random() < 0.3:
            kw['include_pseudo_measurements'] = L['pseudo']
        obs = [self.key[o] for o in L['obs']]
        e = {'op': 'new', 'l': l, 'L': dict(L), 'raised': ''}
        try:
            if full:
                x = f.statistics.likelihood.Likelihood(par_obj=self.par, fit_parameters=L['fit'] if (L['fit'] or rng.random() < 0.5) else None,
                                 observables=obs, **kw)
            else:
                x = f.statistics.likelihood.MeasurementLikelihood(obs, **kw)
        except AssertionError as ex:
            e['raised'] = 'AssertionError: ' + str(ex)[:100]
        self.ev.append(e)
        if not e['raised']:
            self.L[l] = (x, L, full)
        return not e['raised']

    def observe(self, l):
        rng = self.rng
        x, L, full = self.L[l]
        ml = x.measurement_likelihood if full else x
        r = rng.random()
        excl = [o for o in OBS if rng.random() < rng.choice([0, 0, 0.3])]
        ek = rng.choice([list, tuple, set])(self.key[o] for o in excl)
        kw = {}
        if excl or rng.random() < 0.3:
            kw['exclude_observables'] = ek
        if r < 0.2:
            self.ev.append({'op': 'selected', 'l': l, 'names': [{v: k for k, v in MNAME.items()}.get(n, n) for n in ml.get_measurements]})
        elif r < 0.4:
            self.ev.append({'op': 'nobs', 'l': l, 'excl': excl, 'n': int(ml.get_number_observations(**kw))})
        else:
            delta = rng.random() < 0.3
            if delta or rng.random() < 0.3:
                kw['delta'] = delta
            if r < 0.65:
                p = {o: rng.randint(-60, 60) + rng.choice([0.5, 0.25]) for o in OBS}
                give = {self.key[o]: p[o] for o in OBS if o in L['obs'] or rng.random() < 0.3}
                items = list(give.items())
                rng.shuffle(items)
                v = ml.log_likelihood_pred(dict(items), **kw)
                self.ev.append({'op': 'pred_ll', 'l': l, 'x': {o: fp(p[o]) for o in OBS}, 'excl': excl, 'delta': delta, 'val': fp(v)})
            else:
                # never on the edge of a uniform range
                par = {p: rng.randint(-30, 30) + x for p, x in zip(PARS, (0.12, 0.29, 0.31, 0.47))}
                wc = self.f.WilsonCoefficients()
                preds = ml.get_predictions_par(dict(par), wc)
                e = {'op': 'par_ll', 'l': l, 'par': {p: fp(v) for p, v in par.items()}, 'excl': excl, 'delta': delta,
                     'preds': {self.inv.get(k, 'unknown'): fp(v) for k, v in preds.items()}, 'full': full, 'prior': fp(0), 'total': fp(0)}
                if full:
                    e['exp'] = fp(x.log_likelihood_exp(par, wc, **kw))
                    e['prior'] = fp(x.log_prior_fit_parameters(par, **({'delta': delta} if delta else {})))
                    e['total'] = fp(x.log_likelihood(par, wc, **kw))
                else:
                    e['exp'] = fp(ml.log_likelihood_par(par, wc, **kw))
                self.ev.append(e)


def random_L(rng, obs=OBS):
    o = [rng.choice(obs) for _ in range(rng.choice([1, 2, 3, 3]))]
    if rng.random() < 0.8:
        o = sorted(set(o), key=lambda x: rng.random())
    sel = rng.choice(['all', 'all', 'incl', 'excl'])
    names = [] if sel == 'all' else rng.sample(sorted(MNAME), rng.choice([0, 1, 2, 2, 3]))
    return {'obs': o, 'fit': rng.sample(PARS, rng.choice([0, 1, 2, 3])), 'sel': sel, 'names': names, 'pseudo': rng.random() < 0.25}


def scenario(flavio, rng, hist, w):
    w.parameters()
    if hist:
        for h in hist:
            if h['op'] == 'def':
                w.meas(h['m'], h['g'])
            else:
                w.delete(h['m'])
    else:
        for m in rng.sample(['m1', 'm2', 'm3', 'P'], rng.randint(1, 4)):
            w.meas(m, [rng.sample(OBS, rng.choice([1, 1, 2, 3])) for _ in range(rng.randint(1, 3))])
    k = 0
    for n in range(rng.choice([2, 3])):
        full = rng.random() < 0.5
        l = 'L%d' % k
        k += 1
        L = random_L(rng, ['a', 'b', 'c'] if hist else OBS)
        if w.new(l, L, full):
            for _ in range(4):
                w.observe(l)
    # the measurements change afterwards
    for n in range(rng.choice([0, 1, 3, 4])):
        r = rng.random()
        if r < 0.25 and w.ms:
            w.delete(rng.choice(sorted(w.ms)))
        elif r < 0.5:
            w.meas(rng.choice(['m1', 'm2', 'm3', 'P']), [rng.sample(OBS, rng.choice([1, 2, 3])) for _ in range(2)])
        elif r < 0.75 and w.ms:
            w.add(rng.choice(sorted(w.ms)), rng.sample(OBS, rng.choice([1, 2])))
        elif r < 0.9 and w.ms:
            m = rng.choice(sorted(w.ms))
            if w.gov[m]:
                w.remove(m, rng.choice(sorted(w.gov[m])))
        else:
            w.add_par(rng.sample(PARS, rng.choice([1, 2])))
        for l in sorted(w.L):
            w.observe(l)
            w.observe(l)


def main():
    flavio = lib.load_flavio()
    import flavio.statistics.likelihood
    warnings.simplefilter('ignore')
    rng = random.Random(lib.SEED)
    np.random.seed(lib.SEED)
    hists = lib.generate('LikelihoodMC', 'LikelihoodMC3.cfg' if lib.THOROUGH else 'LikelihoodMC.cfg', timeout=1500)
    traces = []
    if len(hists) > 4000:
        hists = rng.sample(hists, 4000)
    elif not lib.THOROUGH:
        hists = rng.sample(hists, 250)
    for h in hists + [None] * (1500 if lib.THOROUGH else 250):
        w = World(flavio, rng)
        try:
            guarded(w.ev, scenario, flavio, rng, h, w)
        finally:
            w.close()
        traces.append(w.ev)
    bad = lib.judge('LikelihoodTrace', traces)
    return lib.finish('C07', bad, 'model_checking',
                      'all histories of defining/redefining/deleting three measurements (TLC) and random ones, with random selections; measurement '
                      'lists, numbers of observations, likelihoods of predictions and of parameters, priors and totals')
