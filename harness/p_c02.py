"""C02: densities, cumulatives, errors and marginals agree."""
import random
import warnings

import numpy as np
import lib
from lib import fp, guarded


def dec(rng, lo, hi, nd=3):
    """A decimal number with few digits (exactly representable in FP.tla)."""
    return round(rng.uniform(lo, hi), nd)


def fl(xs):
    return [fp(x) for x in xs]


def mk_uni(rng, P):
    """spec record, constructor thunk, info"""
    k = rng.choice(['normal', 'uniform', 'duniform', 'delta', 'lognormal', 'asym', 'half', 'gul', 'gamma', 'gammapos',
                    'count', 'gamul', 'num', 'numc', 'normal', 'lognormal', 'half', 'gammapos', 'asym'])
    sc = 10 ** rng.choice([0, 0, 0, -3, 2])
    m = round(dec(rng, -30, 30) * sc, 6)
    if rng.random() < 0.1:
        m = 0.0

    def pos(a=0.2, b=9):
        return round(dec(rng, a, b) * sc, 6)
    inv = rng.random() < 0.08     # invalid arguments
    if k == 'normal':
        s = -pos() if inv else pos()
        return dict(k='normal', m=fp(m), s=fp(s)), lambda: P.NormalDistribution(m, s), {}
    if k == 'uniform':
        h = pos()
        return dict(k='uniform', m=fp(m), h=fp(h)), lambda: P.UniformDistribution(m, h), {}
    if k == 'duniform':
        a = rng.randint(-8, 8)
        b = a + rng.randint(0, 12)
        if inv:
            c = rng.choice([a - 1, b + 1, 0 if a > 0 else a - 2])
        elif rng.random() < 0.5:
            return (dict(k='duniform', lo=fp(a), hi=fp(b), c=fp(int((a + b) / 2))),
                    lambda: P.DiscreteUniformDistribution(a, b), {})
        else:
            c = rng.randint(a, b)
        return dict(k='duniform', lo=fp(a), hi=fp(b), c=fp(c)), lambda: P.DiscreteUniformDistribution(a, b, c), {}
    if k == 'delta':
        return dict(k='delta', m=fp(m)), lambda: P.DeltaDistribution(m), {}
    if k == 'lognormal':
        f = dec(rng, 1.05, 4)
        if inv:
            f = dec(rng, 0.3, 1)
        if m == 0:
            m = 2.5
        return dict(k='lognormal', m=fp(m), f=fp(f)), lambda: P.LogNormalDistribution(m, f), {}
    if k == 'asym':
        r, l = pos(), pos()
        if rng.random() < 0.3:
            r = round(l * 20, 6)
        if inv:
            l = -l
        return (dict(k='asym', m=fp(m), r=fp(r), l=fp(l)),
                lambda: P.AsymmetricNormalDistribution(m, right_deviation=r, left_deviation=l), {})
    if k == 'half':
        s = pos() * rng.choice([1, -1])
        if inv:
            s = 0
        return dict(k='half', m=fp(m), s=fp(s)), lambda: P.HalfNormalDistribution(m, s), {}
    if k == 'gul':
        lim, cl = pos(), rng.choice([0.9, 0.95, 0.68, 0.5])
        return ('half', lambda: P.GaussianUpperLimit(lim, cl), {'limit': lim, 'cl': cl})
    a = rng.choice([1, 2, 3, 5, 1.5, 4.25, 7])
    loc = -round(dec(rng, 0, 0.9 * (a + 1)) * sc, 6) if rng.random() < 0.8 else 0
    if k in ('gamma', 'gammapos'):
        if k == 'gamma' and a <= 1:
            a = 2
        if inv:
            loc = pos()
        cls = P.GammaDistribution if k == 'gamma' else P.GammaDistributionPositive
        return dict(k=k, a=fp(a), loc=fp(loc), sc=fp(sc)), lambda: cls(a=a, loc=loc, scale=sc), {}
    n = rng.randint(0, 8)
    b = round(rng.uniform(0, 0.9 * (n + 1.5)), 2)
    form = rng.randint(0, 2)
    kw = dict(counts_total=n, counts_background=b) if form == 0 else \
        dict(counts_total=n, counts_signal=round(n - b, 2)) if form == 1 else \
        dict(counts_signal=round(n - b, 2), counts_background=b)
    if k == 'count':
        return (dict(k='gammapos', a=fp(n + 1), loc=fp(-b * sc), sc=fp(sc)),
                lambda: P.GammaCountingProcess(scale_factor=sc, **kw), {})
    if k == 'gamul':
        lim, cl = pos(), rng.choice([0.9, 0.95, 0.68])
        return (('gammapos', n, b), lambda: P.GammaUpperLimit(limit=lim, confidence_level=cl, **kw),
                {'limit': lim, 'cl': cl})
    nk = rng.randint(2, 5)
    ks = [m]
    ys = [rng.choice([0.0, dec(rng, 0.5, 3)])]
    for j in range(nk):
        ks.append(round(ks[-1] + pos(0.5, 3), 6))
        ys.append(dec(rng, 0.5, 5))
    if len(set(ys)) < len(ys):
        ys = [y + 0.001 * j for j, y in enumerate(ys)]
    xs, yy = [ks[0]], [ys[0]]
    for j in range(nk):
        nsub = rng.choice([300, 450])
        for t in range(1, nsub + 1):
            xs.append(ks[j] + (ks[j + 1] - ks[j]) * t / nsub)
            yy.append(ys[j] + (ys[j + 1] - ys[j]) * t / nsub)
    d = dict(k='num', ks=fl(ks), ys=fl(ys))
    xs, yy = np.array(xs), np.array(yy) * rng.choice([1, 7.5])
    if k == 'numc':
        c = ks[rng.randint(1, nk - 1)] if nk > 1 else round((ks[0] + ks[1]) / 2, 8)
        d['c'] = fp(c)
        return d, lambda: P.NumericalDistribution(xs, yy, central_value=c), {}
    return d, lambda: P.NumericalDistribution(xs, yy), {}


def uni(rng, P, ev):
    spec, thunk, info = mk_uni(rng, P)
    try:
        D, raised = thunk(), ''
    except Exception as e:
        D, raised = None, lib.exc_name(e)
    if spec == 'half':
        spec = dict(k='half', m=fp(0), s=fp(D.standard_deviation if D else 1))
    elif isinstance(spec, tuple):
        _, n, b = spec
        s = D.scale_factor if D else 1
        spec = dict(k='gammapos', a=fp(n + 1), loc=fp(-b * s), sc=fp(s))
    ev.append({'op': 'new', 'd': spec, 'raised': raised})
    if D is None:
        return
    views(rng, D, spec, ev, info)


def views(rng, D, spec, ev, info, thorough=False):
    k = spec['k']
    c = D.central_value
    ev.append({'op': 'central', 'v': fp(c), 'v2': fp(D.get_central())})
    lo, hi = D.support[0], D.support[-1]
    has = {n: hasattr(D, n) for n in ('cdf', 'ppf', 'pdf')}

    def cdf(x):
        # numerical distributions refuse values outside their grid
        if not has['cdf']:
            return fp(0)
        if k in ('num', 'opaque'):
            x = min(max(x, lo), hi)
        return fp(D.cdf(x))
    ev.append({'op': 'support', 'lo': fp(lo), 'hi': fp(hi), 'c': fp(c), 'cdflo': cdf(lo), 'cdfhi': cdf(hi),
               'soft': k not in ('uniform', 'duniform', 'num', 'opaque', 'delta')})
    if 'limit' in info:
        ev.append({'op': 'limit', 'limit': fp(info['limit']), 'cl': fp(info['cl']), 'cdf': cdf(info['limit'])})
    # evaluation points: inside (biased to the bulk) and outside
    w = hi - lo
    if k == 'delta':
        xs = [c, c + 1, c - 0.5]
    elif k == 'duniform':
        xs = [int(lo) - 1, int(lo), int(hi), int(hi) + 1, lo + 0.5] + [rng.randint(int(lo), int(hi)) for _ in range(2)]
    else:
        w6 = w / (1 if k in ('uniform', 'num', 'opaque') else 3.)
        xs = [min(max(c + rng.uniform(-1, 1) * w6, lo + 1e-3 * w), hi - 1e-3 * w) for _ in range(5)]
        if k in ('half', 'lognormal', 'gammapos'):
            xs = [x for x in xs if abs(x) > 1e-3 * w and abs(x - c) > 1e-4 * w] or [lo + 0.4 * w]
        xs = [float('%.7g' % x) for x in xs]
        if k != 'lognormal' or c < 0:
            xs.append(float('%.7g' % (hi + 0.2 * w)))
        if k in ('uniform', 'num', 'half', 'gammapos', 'normal'):
            xs.append(float('%.7g' % (lo - 0.2 * w)))
        if k == 'lognormal':
            xs.append(float('%.7g' % (-c)))
    with np.errstate(all='ignore'):
        v = D.logpdf(np.array(xs, dtype=float))
        vs = [D.logpdf(float(x)) for x in xs]
    if k == 'gamma':
        xs_, v_, vs_ = zip(*[(x, a, b) for x, a, b in zip(xs, v, vs) if x > lo + 1e-3 * w])
    else:
        xs_, v_, vs_ = xs, v, vs
    ev.append({'op': 'logpdf', 'x': fl(xs_), 'v': fl(v_), 'vs': fl(vs_)})
    inside = sorted(x for x, y in zip(xs, vs) if np.isfinite(y))
    if has['pdf'] and inside:
        ev.append({'op': 'pdf', 'v': fl(D.pdf(np.array(inside))), 'lp': fl(D.logpdf(np.array(inside)))})
    if has['cdf']:
        g = sorted(xs) if k not in ('num', 'opaque') else inside
        if g:
            ev.append({'op': 'cdf', 'x': fl(g), 'v': fl([D.cdf(float(x)) for x in g])})
            av = D.cdf(np.array(g, dtype=float))
            ev.append({'op': 'cdf', 'x': fl(g), 'v': fl(av)})
    # the density integrates to the cumulative
    if has['cdf'] and k not in ('duniform', 'delta'):
        bulk0, bulk1 = (lo, hi)
        for _ in range(3):
            if has['ppf']:
                p0 = rng.uniform(0.02, 0.9)
                a = float(D.ppf(p0))
                b = float(D.ppf(p0 + rng.uniform(0.005, 0.02)))
            else:
                a = rng.uniform(bulk0, bulk1)
                b = a + 0.01 * w
            g = np.linspace(a, b, 5)
            ev.append({'op': 'panel', 'x0': fp(a), 'x1': fp(b), 'lp': fl(D.logpdf(g)), 'c0': cdf(a), 'c1': cdf(b)})
    if has['ppf']:
        ps = [0.02, 0.98, 0.5] + [round(rng.uniform(0.01, 0.99), 4) for _ in range(2)]
        x = D.ppf(np.array(ps))
        ev.append({'op': 'ppf', 'p': fl(ps), 'x': fl(x), 'back': fl([D.cdf(float(y)) for y in x])})
        x1 = [D.ppf(p) for p in ps]
        ev.append({'op': 'ppf', 'p': fl(ps), 'x': fl(x1), 'back': fl([D.cdf(float(y)) for y in x1])})
    with np.errstate(all='ignore'):
        lpc = D.logpdf(c)
        if np.isfinite(lpc) and inside:
            ev.append({'op': 'delta', 'at0': fp(D.delta_logpdf(c)), 'v': fl([D.delta_logpdf(x) for x in inside]),
                       'lp': fl([D.logpdf(x) for x in inside]), 'lpc': fp(lpc)})
    # errors
    num = k in ('num', 'opaque')
    for n in [1, rng.choice([2, 0.5, 1.5])]:
        for method in (['central', 'limit'] if num else ['']):
            kw = {'method': method} if method else {}
            l, r = D.get_error_left(nsigma=n, **kw), D.get_error_right(nsigma=n, **kw)
            if method == '' and n == 1 or method == 'central' and n == 1:
                prop, al, ar = 'yes', fp(D.error_left), fp(D.error_right)
            else:
                prop, al, ar = '', fp(0), fp(0)
            with np.errstate(all='ignore'):
                lpl, lpr = D.logpdf(c - l), D.logpdf(c + r)
            ev.append({'op': 'err', 'n': fp(n), 'c': fp(c), 'l': fp(l), 'r': fp(r), 'method': method, 'prop': prop,
                       'al': al, 'ar': ar, 'lpl': fp(lpl), 'lpr': fp(lpr), 'cdfl': cdf(c - l), 'cdfr': cdf(c + r),
                       'cdfc': cdf(c)})
    # draws
    N = 400
    one = D.get_random()
    arr = np.asarray(D.get_random(size=N), dtype=float)
    s = np.sort(arr.reshape(-1))
    ranks = [1] + list(range(40, N, 40)) + [N] if len(s) == N else [1]
    ev.append({'op': 'draw', 'n': N, 'got': int(arr.shape[0]) if arr.ndim == 1 else -1, 'rank': ranks,
               'x': [fp(s[j - 1]) for j in ranks], 'cdf': [cdf(s[j - 1]) for j in ranks],
               'scalar': bool(np.ndim(one) == 0 and np.isfinite(float(one)))})


def general_gamma(rng, P, ev):
    """Numerically defined counting distributions: the views of one object
    agree, scaling, equivalent parametrisations."""
    n = rng.randint(0, 6)
    b = round(rng.uniform(0.1, n + 1), 2)
    bs = round(rng.uniform(0.1, 0.5) * np.sqrt(n + 1), 3)
    sc = rng.choice([1, 0.01, 3.5])
    kind = rng.randint(0, 3)
    info = {}
    if kind == 0:
        D = P.GeneralGammaCountingProcess(scale_factor=sc, counts_total=n, counts_background=b, background_std=bs)
    elif kind == 1:
        D = P.GeneralGammaDistributionPositive(a=n + 1, loc=-b * sc, scale=sc, gaussian_standard_deviation=bs)
    else:
        lim, cl = round(rng.uniform(0.5, 9), 2), rng.choice([0.9, 0.95])
        kw = {'background_std': bs} if kind == 2 else {'background_variance': bs}
        D = P.GeneralGammaUpperLimit(limit=lim, confidence_level=cl, counts_total=n, counts_signal=round(n - b, 2), **kw)
        info = {'limit': lim, 'cl': cl}
    ev.append({'op': 'new', 'd': {'k': 'opaque'}, 'raised': ''})
    views(rng, D, {'k': 'opaque'}, ev, info)
    # equivalent parametrisation
    ps = np.array([0.1, 0.3, 0.5, 0.7, 0.9])
    sf = D.scale
    E = P.GeneralGammaDistributionPositive(a=n + 1, loc=-b, scale=1, gaussian_standard_deviation=bs)
    ev.append({'op': 'same', 'a': fl(np.asarray(D.ppf(ps)) / sf), 'b': fl(E.ppf(ps)), 'abs': fp(1e-3)})
    # with a small uncertainty: close to the analytic distribution
    F = P.GeneralGammaDistributionPositive(a=n + 1, loc=-b, scale=1, gaussian_standard_deviation=0.03 * np.sqrt(n + 1))
    G = P.GammaDistributionPositive(a=n + 1, loc=-b, scale=1)
    ev.append({'op': 'same', 'a': fl(F.ppf(ps)), 'b': fl(G.ppf(ps)), 'abs': fp(0.05)})


def kde(rng, P, ev):
    n = rng.choice([300, 1000])
    r = np.random.RandomState(rng.randint(0, 10**6))
    m, s = dec(rng, -20, 20), dec(rng, 0.3, 5)
    data = r.normal(m, s, n)
    bw = round(s * rng.choice([0.2, 0.5]), 4)
    if rng.random() < 0.5:
        D = P.GaussianKDE(data, bandwidth=bw)
    else:
        D = P.KernelDensityEstimate(data, P.NormalDistribution(0, bw))
    if rng.random() < 0.3:
        bw = n ** (-0.2) * np.std(data)
        D = P.GaussianKDE(data)
    ev.append({'op': 'new', 'd': {'k': 'opaque'}, 'raised': ''})
    views(rng, D, {'k': 'opaque'}, ev, {})
    g = np.linspace(D.support[0], D.support[1], 4000)
    p = np.exp(D.logpdf(g))
    p[~np.isfinite(p)] = 0
    p /= p.sum()
    mean = (g * p).sum()
    sd = np.sqrt(((g - mean) ** 2 * p).sum())
    ev.append({'op': 'moments', 'mean': fp(mean), 'emean': fp(np.mean(data)), 'tolm': fp(0.05 * s), 'sd': fp(sd),
               'esd': fp(np.sqrt(np.var(data) + bw ** 2))})


def mvn(rng, P, ev):
    n = rng.choice([2, 2, 3, 3, 4])
    sc = 10.0 ** rng.choice([0, 0, -3, -6, 3])
    scs = [sc * rng.choice([1, 1, 0.01, 100]) for _ in range(n)]
    mu = [float('%.5g' % (dec(rng, -9, 9) * s)) for s in scs]
    sd = [float('%.4g' % (dec(rng, 0.2, 5) * s)) for s in scs]
    form = rng.choice(['cov', 'cov', 'tri', 'corr', 'corrtri', 'rho', 'sd'])
    while True:
        R = np.eye(n)
        for a in range(n):
            for b in range(a):
                R[a, b] = R[b, a] = rng.choice([0.5, -0.4, 0.9, 0.1, 0, -0.75])
        if np.linalg.eigvalsh(R).min() > 0.1:
            break
    if form == 'rho':
        rho = rng.choice([0.5, 0.25, 0, 0.9, -0.2, -0.3])
        if rho == 0:
            rho = rng.choice([0, 0.0])
    cov = [[float('%.7g' % (R[a, b] * sd[a] * sd[b])) for b in range(n)] for a in range(n)]
    if form in ('cov', 'tri'):
        if form == 'tri':
            cov = [[cov[a][b] if a <= b else 0 for b in range(n)] for a in range(n)]
        e = {'form': 'cov', 'cov': [fl(r) for r in cov]}
        D = P.MultivariateNormalDistribution(mu if rng.random() < 0.5 else np.array(mu), covariance=cov)
    elif form in ('corr', 'corrtri'):
        C = R.tolist()
        if form == 'corrtri':
            C = [[C[a][b] if a <= b else 0 for b in range(n)] for a in range(n)]
        e = {'form': 'corr', 'sd': fl(sd), 'corr': [fl(r) for r in C]}
        D = P.MultivariateNormalDistribution(mu, standard_deviation=sd, correlation=C)
    elif form == 'rho':
        e = {'form': 'rho', 'sd': fl(sd), 'rho': fp(rho)}
        D = P.MultivariateNormalDistribution(mu, standard_deviation=sd, correlation=rho)
    else:
        e = {'form': 'sd', 'sd': fl(sd)}
        D = P.MultivariateNormalDistribution(mu, standard_deviation=sd)
    e.update({'k': 'mvn', 'mu': fl(mu)})
    ev.append({'op': 'new', 'd': e, 'raised': ''})
    ns = rng.choice([1, 2])
    if ns == 1 and rng.random() < 0.5:
        l, r = D.error_left, D.error_right
    else:
        l, r = D.get_error_left(nsigma=ns), D.get_error_right(nsigma=ns)
    ev.append({'op': 'mvattr', 'cov': [fl(x) for x in np.asarray(D.covariance)], 'c': fl(D.get_central()),
               'sd': fl(D.standard_deviation), 'corr': [fl(x) for x in np.asarray(D.correlation)],
               'n': fp(ns), 'l': fl(l), 'r': fl(r)})
    for _ in range(5):
        ex = rng.sample(range(n), rng.choice([0, 1, n - 1, n - 2 if n > 2 else 1]))
        keep = [j for j in range(n) if j not in ex]
        pts = [[float('%.6g' % (mu[j] + rng.uniform(-3, 3) * sd[j])) for j in keep] for _ in range(2)]
        arg = rng.choice([list, tuple])(ex)
        kw = {'exclude': arg} if ex else rng.choice([{}, {'exclude': None}])
        r = rng.random()
        one = len(keep) == 1

        def scal(v):
            return v.reshape(-1)[0] if isinstance(v, np.ndarray) and v.size == 1 else v
        if r < 0.5:
            xs = [x[0] if one and rng.random() < 0.5 else (np.array(x) if rng.random() < .5 else x) for x in pts]
            v = [scal(D.logpdf(x, **kw)) for x in xs]
            dv = [scal(D.delta_logpdf(x, **kw)) for x in xs]
        else:
            A = np.array(pts)
            if one:
                A = A[:, 0]
            v, dv = D.logpdf(A, **kw), D.delta_logpdf(A, **kw)
        ev.append({'op': 'mvlogpdf', 'excl': [j + 1 for j in ex], 'x': [fl(x) for x in pts], 'v': fl(v), 'dv': fl(dv)})
        if ex:
            E = D.reduce_dimension(exclude=arg)
            c = np.atleast_1d(E.central_value)
            sdv = np.atleast_1d(E.standard_deviation)
            v = [scal(E.logpdf(np.array(x) if not one else x[0])) for x in pts]
            ev.append({'op': 'mvreduce', 'excl': [j + 1 for j in ex], 'c': fl(c), 'sd': fl(sdv),
                       'x': [fl(x) for x in pts], 'v': fl(v)})
    N = 400
    A = np.asarray(D.get_random(size=N))
    ev.append({'op': 'mvdraw', 'n': N, 'got': list(A.shape), 'one': len(np.asarray(D.get_random())),
               'm': fl(A.mean(axis=0)), 'cov': [fl(x) for x in np.cov(A.T)]})


def mvnum(rng, P, ev):
    n = rng.choice([2, 2, 3])
    xi = []
    for a in range(n):
        x0, dx = dec(rng, -5, 5), dec(rng, 0.2, 2)
        xi.append([round(x0 + j * dx, 6) for j in range(rng.randint(3, 4))])
    shape = [len(x) for x in xi]
    y = np.array([rng.choice([0, 1, 2, 3, 5, 8]) for _ in range(int(np.prod(shape)))], float).reshape(shape)
    flat = np.argmax(y)
    y.reshape(-1)[flat] += 3
    arg = [[x[0], x[-1]] if rng.random() < 0.3 else x for x in xi]
    d = {'k': 'mvnum', 'xi': [fl(x) for x in xi],
         'y': [{'i': [int(q) + 1 for q in ix], 'v': fp(v)} for ix, v in np.ndenumerate(y)]}
    if rng.random() < 0.5:
        c = [rng.choice(x) for x in xi]
        d['c'] = fl(c)
        D = P.MultivariateNumericalDistribution(arg, y, central_value=c)
    else:
        D = P.MultivariateNumericalDistribution(arg, y * rng.choice([1, 0.25]))
    ev.append({'op': 'new', 'd': d, 'raised': ''})
    ev.append({'op': 'mncentral', 'c': fl(D.central_value), 'lo': fl(D.support[0]), 'hi': fl(D.support[1])})
    pts = [ix for ix, v in np.ndenumerate(y) if v > 0]
    pts = rng.sample(pts, min(4, len(pts)))

    def at(ix):
        return [float(D.xi[k][ix[k]]) for k in range(n)]   # exactly on the grid
    if rng.random() < 0.5:
        v = [D.logpdf(at(ix)) for ix in pts]
    else:
        v = D.logpdf(np.array([at(ix) for ix in pts]))
    far = [x[-1] + 1 for x in xi]
    ev.append({'op': 'mnlogpdf', 'i': [[int(q) + 1 for q in ix] for ix in pts], 'v': fl(v), 'out': fp(D.logpdf(far))})
    for ex in ([0], [n - 1], [0, n - 1] if n == 3 else [1]):
        keep = [j for j in range(n) if j not in ex]
        if rng.random() < 0.3:
            ex = ex[::-1]
        prof = y.max(axis=tuple(ex))
        pts = [ix for ix, v in np.ndenumerate(prof) if v > 0]
        pts = rng.sample(pts, min(3, len(pts)))
        xs = [[float(D.xi[keep[k]][ix[k]]) for k in range(len(keep))] for ix in pts]
        if len(keep) == 1:
            xs = [x[0] for x in xs]
        v = [np.asarray(D.logpdf(x, exclude=ex)).reshape(-1)[0] for x in xs]
        ev.append({'op': 'mnprofile', 'excl': [j + 1 for j in ex], 'i': [[int(q) + 1 for q in ix] for ix in pts], 'v': fl(v)})
        # delta at the central value vanishes
    N = 500
    A = np.asarray(D.get_random(size=N))
    cnt = {}
    inside = True
    for a in A:
        ix = []
        for k in range(n):
            dx = xi[k][1] - xi[k][0]
            j = int(np.floor((a[k] - xi[k][0]) / dx + 0.5))
            ix.append(j)
            inside = inside and 0 <= j < shape[k]
        cnt[tuple(ix)] = cnt.get(tuple(ix), 0) + 1
    ev.append({'op': 'mndraw', 'n': N, 'inside': bool(inside),
               'cnt': [cnt.get(ix, 0) for ix, v in np.ndenumerate(y)]})


def main():
    flavio = lib.load_flavio()
    warnings.simplefilter('ignore')
    rng = random.Random(lib.SEED)
    np.random.seed(lib.SEED)
    P = flavio.statistics.probability
    lib.model_check('DistMC', 'DistMC.cfg', workers=6)
    f = 8 if lib.THOROUGH else 1
    traces = []
    for fn, n in ((uni, 170), (general_gamma, 14), (kde, 6), (mvn, 60), (mvnum, 40)):
        for _ in range(n * f):
            ev = []
            guarded(ev, fn, rng, P, ev)
            traces.append(ev)
    bad = lib.judge('DistTrace', traces)
    return lib.finish('C02', bad, 'model_checking',
                      'random arguments for every distribution class: every view of the object (density, cumulative, percentiles, '
                      'errors, support, draws, marginals) judged by TLC against the closed form of the distribution')
