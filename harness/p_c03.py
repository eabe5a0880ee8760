"""C03: convolution and combination follow Gaussian error algebra."""
import copy
import random
import warnings

import numpy as np
import lib
from lib import fp, guarded


def fl(xs):
    return [fp(x) for x in xs]


def snap(d):
    return lib.bits({k: v for k, v in d.__dict__.items() if not callable(v) and k not in ('scipy_dist',)
                     and isinstance(v, (int, float, list, tuple, np.ndarray))})


class W:
    def __init__(self, flavio, rng, ev):
        self.P, self.rng, self.ev = flavio.statistics.probability, rng, ev
        self.o, self.n = {}, 0
        self.last = None

    def id(self):
        self.n += 1
        return 'd%d' % self.n

    def leaf(self, m, kinds, sc=1.):
        rng, P = self.rng, self.P
        k = rng.choice(kinds)

        def pos(a=0.3, b=5):
            # errors of different inputs are often equal
            v = round(rng.uniform(a, b) * sc, 7)
            if self.last is not None and rng.random() < 0.3:
                v = self.last
            self.last = v
            return v
        if k == 'normal':
            s = pos()
            d, o = dict(k='normal', m=fp(m), s=fp(s)), P.NormalDistribution(m, s)
        elif k == 'delta':
            d, o = dict(k='delta', m=fp(m)), P.DeltaDistribution(m)
        elif k == 'uniform':
            h = pos()
            d, o = dict(k='uniform', m=fp(m), h=fp(h)), P.UniformDistribution(m, h)
        elif k == 'asym':
            r, l = pos(), pos()
            d, o = dict(k='asym', m=fp(m), r=fp(r), l=fp(l)), P.AsymmetricNormalDistribution(m, r, l)
        elif k == 'half':
            s = pos() * rng.choice([1, -1])
            d, o = dict(k='half', m=fp(m), s=fp(s)), P.HalfNormalDistribution(m, s)
        elif k == 'lognormal':
            f = round(rng.uniform(1.1, 1.5), 3)
            m = m if m else 1.5
            d, o = dict(k='lognormal', m=fp(m), f=fp(f)), P.LogNormalDistribution(m, f)
        i = self.id()
        self.o[i] = o
        self.ev.append({'op': 'leaf', 'id': i, 'd': d})
        return i

    def op(self, name, ins, mode=None):
        P, ev = self.P, self.ev
        objs = [self.o[i] for i in ins]
        before = [snap(o) for o in objs]
        out = self.id()
        e = {'op': name, 'in': list(ins), 'out': out, 'raised': ''}
        if mode:
            e['mode'] = mode
        try:
            if name == 'conv':
                if mode == 'same' and self.rng.random() < 0.5:
                    R = P.convolve_distributions(objs)
                else:
                    R = P.convolve_distributions(objs, central_values=mode)
            else:
                R = P.combine_distributions(objs)
        except (AssertionError, ValueError, NotImplementedError) as x:
            e['raised'] = lib.exc_name(x)
            ev.append(e)
            return None
        e['same'] = before == [snap(o) for o in objs]
        e['kind'] = 'normal' if isinstance(R, P.NormalDistribution) else 'delta' if isinstance(R, P.DeltaDistribution) else 'other'
        e['c'] = fp(R.central_value)
        e['sd'] = fp(R.standard_deviation) if e['kind'] == 'normal' else fp(0)
        e.update(norm=fp(0), mean=fp(0), var=fp(0), x=[], lp=[])
        if e['kind'] == 'other':
            g = np.linspace(R.support[0], R.support[-1], 20001)
            with np.errstate(all='ignore'):
                p = np.exp(R.logpdf(g))
            p[~np.isfinite(p)] = 0
            dx = g[1] - g[0]
            I = p.sum() * dx
            mean = (p * g).sum() / p.sum()
            var = (p * (g - mean) ** 2).sum() / p.sum()
            e['norm'], e['mean'], e['var'] = fp(I), fp(mean), fp(var)
            # points in the bulk of the result and of all inputs' supports
            lo = max([R.support[0]] + ([o.support[0] for o in objs] if name == 'comb' else []))
            hi = min([R.support[-1]] + ([o.support[-1] for o in objs] if name == 'comb' else []))
            mode_ = g[np.argmax(p)]
            sd = np.sqrt(var)
            xs = []
            for _ in range(60):
                x = float('%.7g' % (mean + self.rng.uniform(-1.5, 1.5) * sd))
                if lo + 0.02 * sd < x < hi - 0.02 * sd and len(xs) < 6 and np.exp(R.logpdf(x)) > 0.05 * p.max():
                    # stay away from kinks and jumps of the inputs
                    if name == 'comb' and any(abs(x - q) < 0.03 * sd for q in self.kinks):
                        continue
                    xs.append(x)
            e['x'], e['lp'] = fl(xs), fl(R.logpdf(np.array(xs))) if xs else []
        self.o[out] = R
        ev.append(e)
        return out


def trees(flavio, rng, hist, ev, mode):
    """A merge order generated by TLC, and all at once."""
    w = W(flavio, rng, ev)
    w.kinks = []
    n = len(hist) + 1
    sc = 10.0 ** rng.choice([0, -3, 2])
    m = round(rng.uniform(-20, 20) * sc, 6)
    kinds = ['normal'] if rng.random() < 0.6 else ['normal', 'normal', 'delta'] if mode == 'same' else ['normal']
    ids = [w.leaf(m if mode == 'same' else round(rng.uniform(-20, 20) * sc, 6), kinds, sc) for _ in range(n)]
    name = 'comb' if mode == 'comb' else 'conv'
    bag = list(ids)
    for a, b in hist:
        x, y = bag[a - 1], bag[b - 1]
        r = w.op(name, [x, y], None if name == 'comb' else mode)
        if r is None:
            return
        bag = [z for z in bag if z not in (x, y)] + [r]
    perm = list(ids)
    rng.shuffle(perm)
    w.op(name, perm, None if name == 'comb' else mode)


def mixed(flavio, rng, ev):
    w = W(flavio, rng, ev)
    w.kinks = []
    name = rng.choice(['conv', 'conv', 'comb'])
    mode = rng.choice(['same', 'same', 'sum']) if name == 'conv' else None
    sc = 10.0 ** rng.choice([0, 0, -3])
    n = rng.choice([1, 2, 2, 3, 4])
    m = round(rng.uniform(3, 20) * sc, 6) * rng.choice([1, -1])
    kinds = ['normal', 'normal', 'uniform', 'asym', 'half', 'lognormal']
    if mode != 'sum':
        kinds = kinds + ['delta']
    if rng.random() < 0.1:
        kinds = ['delta', 'normal']
    ids = []
    for j in range(n):
        mm = m if mode == 'same' and rng.random() < 0.95 else round(m + rng.uniform(-1.5, 1.5) * sc, 6)
        ks = ['normal', 'asym', 'uniform', 'delta'] if name == 'comb' else kinds
        if name == 'comb' and rng.random() < 0.8:
            ks = ks[:3]
        ids.append(w.leaf(mm, ks, sc if mode is None else sc * rng.choice([1, 1, 0.2])))
        w.kinks.append(mm)
        o = w.o[ids[-1]]
        if name == 'comb' and hasattr(o, 'half_range'):
            w.kinks += list(o.range)
    rng.shuffle(ids)
    if name == 'comb' and not any(hasattr(w.o[i], 'central_value') and type(w.o[i]).__name__ == 'DeltaDistribution' for i in ids):
        # either a sizeable common range or flat ranges that clearly exclude each other
        def gap(os):
            lo, hi = max(o.support[0] for o in os), min(o.support[-1] for o in os)
            return (hi - lo) / min(o.support[-1] - o.support[0] for o in os)
        os = [w.o[i] for i in ids]
        us = [o for o in os if hasattr(o, 'half_range')]
        if gap(os) < 0.1 and not (us and gap(us) < -1e-3):
            return
    r = w.op(name, ids, mode)
    if r is not None and n == 3 and name == 'conv' and mode == 'same':
        q = w.op(name, ids[:2], mode)
        if q:
            w.op(name, [ids[2], q], mode)


def multi(flavio, rng, ev):
    P = flavio.statistics.probability
    n = rng.choice([2, 3])
    k = rng.choice([2, 3, 4])
    name = rng.choice(['mconv', 'mcomb'])
    mode = rng.choice(['same', 'sum'])
    sc = 10.0 ** rng.choice([0, -3, -6])
    objs = {}

    def mu():
        return [float('%.4g' % (rng.uniform(-5, 5) * sc)) for _ in range(n)]
    m0 = mu()
    ids = []
    for j in range(k):
        m = m0 if (name == 'mconv' and mode == 'same' and rng.random() < 0.97) else mu()
        while True:
            R = np.eye(n)
            for a in range(n):
                for b in range(a):
                    R[a, b] = R[b, a] = rng.choice([0.5, -0.4, 0.8, 0.1, 0])
            if np.linalg.eigvalsh(R).min() > 0.15:
                break
        sd = [rng.uniform(0.5, 5) * sc for _ in range(n)]
        cov = [[float('%.6g' % (R[a, b] * sd[a] * sd[b])) for b in range(n)] for a in range(n)]
        i = 'm%d' % j
        objs[i] = P.MultivariateNormalDistribution(np.array(m) if rng.random() < 0.4 else m, covariance=cov)
        ids.append(i)
        ev.append({'op': 'mleaf', 'id': i, 'mu': fl(m), 'cov': [fl(r) for r in cov]})
    c = [0]

    def op(ins):
        c[0] += 1
        e = {'op': name, 'in': list(ins), 'out': 'r%d' % c[0], 'raised': ''}
        if name == 'mconv':
            e['mode'] = mode
        os = [objs[i] for i in ins]
        before = [snap(o) for o in os]
        try:
            R = P.convolve_distributions(os, mode) if name == 'mconv' else P.combine_distributions(os)
        except (AssertionError, ValueError, NotImplementedError) as x:
            e['raised'] = lib.exc_name(x)
            ev.append(e)
            return None
        e['same'] = before == [snap(o) for o in os]
        e['c'] = fl(R.central_value)
        e['cov'] = [fl(r) for r in np.asarray(R.covariance)]
        s = np.sqrt(np.diag(R.covariance))
        e['x'] = [fl([float('%.6g' % (R.central_value[a] + rng.uniform(-1.5, 1.5) * s[a])) for a in range(n)]) for _ in range(10)]
        objs[e['out']] = R
        ev.append(e)
        return e['out']
    rng.shuffle(ids)
    if op(ids) is None:
        return
    if k > 2:
        r = op(ids[:2])
        if r:
            op([r] + ids[2:])
            op(ids[2:] + [r])


def gridmom(D):
    x = [np.linspace(a[0], a[-1], 161) for a in D.xi]
    G = np.stack(np.meshgrid(*x, indexing='ij'), -1)
    with np.errstate(all='ignore'):
        p = np.exp(D.logpdf(G))
    p = np.where(np.isfinite(p), p, 0)
    I = p.sum() * (x[0][1] - x[0][0]) * (x[1][1] - x[1][0])
    p = p / p.sum()
    m = [(G[..., k] * p).sum() for k in range(2)]
    c = [[((G[..., a] - m[a]) * (G[..., b] - m[b]) * p).sum() for b in range(2)] for a in range(2)]
    return m, c, I


def numeric(flavio, rng, ev):
    P = flavio.statistics.probability
    lo = [rng.uniform(-5, 5) for _ in range(2)]
    L = [rng.uniform(6, 12) for _ in range(2)]
    xi = [np.linspace(lo[a], lo[a] + L[a], rng.choice([41, 50])) for a in range(2)]
    fr = [rng.uniform(0.15, 0.85) for _ in range(2)]
    cen = [lo[a] + fr[a] * L[a] for a in range(2)]
    s = [rng.uniform(0.5, 1.1) for _ in range(2)]
    rho = rng.choice([0, 0.5, -0.5])
    X, Y = np.meshgrid(*xi, indexing='ij')
    u, v = (X - cen[0]) / s[0], (Y - cen[1]) / s[1]
    y = np.exp(-(u * u - 2 * rho * u * v + v * v) / (2 * (1 - rho ** 2)))
    given = rng.random() < 0.5
    N = P.MultivariateNumericalDistribution(xi, y, central_value=cen) if given else P.MultivariateNumericalDistribution(xi, y)
    c0 = [float(x) for x in N.central_value]
    sg = [rng.uniform(0.4, 1.0) for _ in range(2)]
    rg = rng.choice([0, 0.6, -0.4])
    cov = [[sg[0] ** 2, rg * sg[0] * sg[1]], [rg * sg[0] * sg[1], sg[1] ** 2]]
    if rng.random() < 0.6:
        mode = rng.choice(['same', 'sum'])
        mu = c0 if mode == 'same' else [rng.uniform(-4, 4) for _ in range(2)]
        G = P.MultivariateNormalDistribution(mu, covariance=cov)
        ins = [G, N]
        if rng.random() < 0.5:
            ins = [N, G]
        if rng.random() < 0.3:
            half = P.MultivariateNormalDistribution([x / 2 for x in mu] if mode == 'sum' else mu, covariance=np.array(cov) / 2)
            ins = [half, N, half]
        e = {'op': 'nconv', 'in': [], 'raised': ''}
        R = P.convolve_distributions(ins, central_values=mode)
        m0, cc0, _ = gridmom(N)
        m, cc, _ = gridmom(R)
        e.update(c=fl(R.central_value), ec=fl([c0[a] + (mu[a] if mode == 'sum' else 0) for a in range(2)]), mean=fl(m), mean0=fl(m0),
                 c0=fl(c0), var=fl([cc[0][0], cc[1][1]]), var0=fl([cc0[0][0], cc0[1][1]]), varg=fl([cov[0][0], cov[1][1]]),
                 cv=fp(cc[0][1]), cv0=fp(cc0[0][1]), cvg=fp(cov[0][1]))
        ev.append(e)
        try:
            P.convolve_distributions([N, N, G] if mode == 'same' else [N, N], central_values=mode)
            r = ''
        except Exception as x:
            r = lib.exc_name(x)
        if mode == 'sum':
            ev.append({'op': 'nconvbad', 'in': [], 'raised': r})
    else:
        mu = [cen[a] + rng.uniform(-0.5, 0.5) for a in range(2)]
        G = P.MultivariateNormalDistribution(mu, covariance=cov)
        ins = [G, N]
        rng.shuffle(ins)
        R = P.combine_distributions(ins)
        _, _, I = gridmom(R)
        pts = [[mu[a] + rng.uniform(-0.7, 0.7) * sg[a] for a in range(2)] for _ in range(5)]
        ev.append({'op': 'ncomb', 'in': [], 'raised': '', 'lp': fl([R.logpdf(x) for x in pts]), 'norm': fp(I),
                   'parts': [fl([d.logpdf(np.array(x)) for d in ins]) for x in pts]})


def main():
    flavio = lib.load_flavio()
    warnings.simplefilter('ignore')
    rng = random.Random(lib.SEED)
    np.random.seed(lib.SEED)
    traces = []
    for mode in ('same', 'sum', 'comb'):
        for h in lib.generate('CombineMC', 'CombineMC_%s.cfg' % mode):
            ev = []
            guarded(ev, trees, flavio, rng, h, ev, mode)
            traces.append(ev)
    f = 8 if lib.THOROUGH else 1
    for fn, n in ((mixed, 220), (multi, 120), (numeric, 16)):
        for _ in range(n * f):
            ev = []
            guarded(ev, fn, flavio, rng, ev)
            traces.append(ev)
    bad = lib.judge('CombineTrace', traces)
    return lib.finish('C03', bad, 'model_checking',
                      'every order and grouping of 4 inputs (generated by TLC) plus random mixed, multivariate and numerical inputs')
