"""C17: robust optimisation returns an honest and best-effort result."""
import random
import warnings

import numpy as np

import lib
from lib import fp, guarded


def vec(x):
    return [fp(v) for v in np.asarray(x, dtype=float).ravel()]


class Quad:
    """a parabola (or a quartic), with or without further arguments"""

    def __init__(self, rng, n, sign, extra):
        self.sign = sign
        self.a = [rng.choice([0.5, 1, 2, 3]) for _ in range(n)]
        self.c = [rng.randint(-8, 8) / 2 for _ in range(n)]
        self.b = rng.choice([0, 0, 1, 0.25])
        self.d = rng.randint(-10, 10)
        self.args = (rng.randint(1, 5), rng.randint(-3, 3))[:extra]
        self.calls = []

    def __call__(self, x, *args):
        self.calls.append(args)
        k = args[0] if args else 1
        sh = args[1] if len(args) > 1 else 0
        return self.sign * k * sum(a * (y - c) ** 2 + self.b * (y - c) ** 4 for a, y, c in zip(self.a, x, self.c)) + self.d + sh

    def spec(self):
        k = self.args[0] if self.args else 1
        sh = self.args[1] if len(self.args) > 1 else 0
        return {'a': [fp(self.sign * k * a) for a in self.a], 'c': [fp(c) for c in self.c], 'b': fp(self.sign * k * self.b), 'd': fp(self.d + sh)}


def scripted(flavio, rng, h, sign, ev):
    """methods whose outcomes are those of a behaviour of the model"""
    from scipy.optimize import OptimizeResult
    n = rng.choice([1, 2, 3])
    x0 = [float(rng.randint(-5, 5)) for _ in range(n)]
    if rng.random() < 0.5:
        x0 = np.array(x0)
    kind = type(x0)
    keep = [float(v) for v in x0]
    args = tuple(rng.randint(1, 9) for _ in range(rng.choice([0, 1, 2])))
    opts = {k: rng.randint(1, 99) for k in rng.sample(['maxiter', 'vf_a', 'vf_b'], rng.choice([0, 1, 2]))}
    disp = rng.random() < 0.2
    v0 = float(rng.randint(-50, 50))
    points = {tuple(keep): v0}          # value of the function at the points reached (as the methods see it)
    state = {'n': 0, 'v': v0}

    def fun(x, *a):
        if a != args:
            ev.append({'op': 'exception', 'type': 'arguments', 'msg': 'function called with ' + repr(a)})
        v = points[tuple(float(y) for y in x)]
        return v if sign == 1 else -v
    names = ['p', 'q', 'r'][:h['m']]

    def method(name):
        def run(f, start, args=(), jac=None, hess=None, hessp=None, bounds=None, constraints=(), callback=None, **options):
            k = state['n']
            state['n'] += 1
            start = np.asarray(start, dtype=float)
            f0 = f(start, *args)
            if k >= len(h['h']):
                ev.append({'op': 'exception', 'type': 'tries', 'msg': 'more tries than expected'})
                return OptimizeResult(success=True, x=start, fun=f0)
            o = h['h'][k]
            big = rng.choice([0.5, 1e-5, 3, 40])
            v = state['v'] + o['d'] * big
            x = np.array([float(rng.randint(-10**6, 10**6)) + 0.5 for _ in range(n)])
            points[tuple(float(y) for y in x)] = v
            if not o['ok'] and o['d'] < 0:
                state['v'] = v
            options.pop('disp', None)
            ev.append({'op': 'try', 'm': name, 'x0': vec(start), 'f0': fp(f0), 'ok': o['ok'], 'x': vec(x), 'v': fp(v),
                       'opts': repr(sorted(options.items())), 'args': repr(tuple(args))})
            return OptimizeResult(success=o['ok'], x=x, fun=v, nfev=1)
        return run
    methods = tuple(method(m) for m in names)
    if rng.random() < 0.3:
        methods = list(methods)
    ev.append({'op': 'start', 'x': vec(x0), 'v': fp(v0), 'methods': names, 'tries': h['t'], 'sign': sign,
               'opts': repr(sorted(opts.items())), 'args': repr(args)})
    kw = dict(opts)
    if h['t'] != 3 or rng.random() < 0.5:
        kw['tries'] = h['t']
    if disp:
        kw['disp'] = True
    if args or rng.random() < 0.3:
        kw['args'] = args
    import contextlib
    import io
    o = flavio.math.optimize
    with contextlib.redirect_stdout(io.StringIO()):
        res = (o.minimize_robust if sign == 1 else o.maximize_robust)(fun, x0, methods=methods, **kw)
    ev.append({'op': 'result', 'ok': bool(res.success), 'x': vec(res.x), 'v': fp(res.fun),
               'x0same': [float(v) for v in x0] == keep and type(x0) is kind})



def real(flavio, rng, ev):
    """the real methods on parabolas, also with too few iterations"""
    n = rng.choice([1, 2, 3])
    sign = rng.choice([1, -1])
    extra = rng.choice([0, 0, 1, 2])
    q = Quad(rng, n, sign, extra)
    x0 = [float(rng.randint(-20, 20)) for _ in range(n)]
    x0 = x0 if rng.random() < 0.5 else np.array(x0)
    keep = [float(v) for v in x0]
    o = flavio.math.optimize
    kw = {}
    r = rng.random()
    if r < 0.5:
        kw['methods'] = tuple(rng.sample(['SLSQP', 'BFGS', 'Nelder-Mead', 'MIGRAD'], rng.choice([1, 2, 3])))
    if rng.random() < 0.4:
        kw['tries'] = rng.choice([1, 2, 4])
    if rng.random() < 0.4:
        kw['maxiter'] = rng.choice([1, 2, 5, 30])
    if extra:
        kw['args'] = q.args
    f = o.minimize_robust if sign == 1 else o.maximize_robust
    res = f(q, x0, **kw)
    same = [float(v) for v in x0] == keep
    spec = q.spec()
    ev.append({'op': 'real', 'sign': sign, 'ok': bool(res.success), 'q': spec, 'x0': vec(keep), 'x': vec(res.x), 'v': fp(res.fun), 'x0same': same})
    if any(c != q.args for c in q.calls):
        ev.append({'op': 'exception', 'type': 'arguments', 'msg': 'extra arguments not passed to the function'})
    # the negative function
    neg = (lambda x, *a: -q(x, *a))
    g = o.maximize_robust if sign == 1 else o.minimize_robust
    res2 = g(neg, np.array(keep), **kw)
    a, b = (res, res2) if sign == 1 else (res2, res)
    ev.append({'op': 'twin', 'okmin': bool(a.success), 'okmax': bool(b.success), 'xmin': vec(a.x), 'xmax': vec(b.x), 'vmin': fp(a.fun), 'vmax': fp(b.fun)})


def before_migrad(flavio, rng, ev):
    """a method that stops early, followed by MIGRAD"""
    from scipy.optimize import OptimizeResult
    n = rng.choice([1, 2, 3])
    sign = rng.choice([1, -1])
    q = Quad(rng, n, sign, 0)
    x0 = [float(rng.randint(-9, 9)) + 0.25 for _ in range(n)]
    end = [float(rng.randint(-9, 9)) + 0.75 for _ in range(n)]
    calls = []

    def fun(x):
        calls.append([float(y) for y in x])
        return q(x)
    o = flavio.math.optimize

    def early(f, start, args=(), **options):
        v = sign * q(end)
        ev.append({'op': 'try', 'm': 'p', 'x0': vec(start), 'f0': fp(f(start)), 'ok': False, 'x': vec(end), 'v': fp(v), 'opts': '', 'args': ''})
        calls.clear()
        return OptimizeResult(success=False, x=np.array(end), fun=v, nfev=1)
    ev.append({'op': 'start', 'x': vec(x0), 'v': fp(sign * q(x0)), 'methods': ['p', 'MIGRAD'], 'tries': 1, 'sign': sign, 'opts': '', 'args': ''})
    f = o.minimize_robust if sign == 1 else o.maximize_robust
    res = f(fun, np.array(x0), methods=(early, 'MIGRAD'), tries=1)
    first = calls[0] if calls else []
    v = sign * float(res.fun)
    ev.append({'op': 'try', 'm': 'MIGRAD', 'x0': vec(first), 'f0': fp(0), 'ok': bool(res.success), 'x': vec(res.x), 'v': fp(v), 'opts': '', 'args': ''})
    ev.append({'op': 'result', 'ok': bool(res.success), 'x': vec(res.x), 'v': fp(res.fun), 'x0same': True})


def unbounded(flavio, rng, ev):
    """MIGRAD cannot succeed on a linear function"""
    n = rng.choice([1, 2])
    slope = [rng.choice([-3, -1, 1, 2, 5]) for _ in range(n)]
    sign = rng.choice([1, -1])
    o = flavio.math.optimize
    f = o.minimize_robust if sign == 1 else o.maximize_robust
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = f(lambda x: sum(k * y for k, y in zip(slope, x)), [float(rng.randint(-5, 5)) for _ in range(n)], methods=('MIGRAD',), tries=1)
    ev.append({'op': 'unbounded', 'ok': bool(res.success)})


def main():
    flavio = lib.load_flavio()
    import flavio.math.optimize
    warnings.simplefilter('ignore')
    rng = random.Random(lib.SEED)
    np.random.seed(lib.SEED)
    hists = lib.generate('OptimizeMC', 'OptimizeMC.cfg', timeout=600)
    hists = rng.sample(hists, min(len(hists), 20000 if lib.THOROUGH else 1500))
    traces = []
    for h in hists:
        ev = []
        guarded(ev, scripted, flavio, rng, h, rng.choice([1, -1]), ev)
        traces.append(ev)
    for _ in range(3000 if lib.THOROUGH else 400):
        ev = []
        guarded(ev, real, flavio, rng, ev)
        traces.append(ev)
    for _ in range(1000 if lib.THOROUGH else 150):
        ev = []
        guarded(ev, before_migrad, flavio, rng, ev)
        traces.append(ev)
    for _ in range(200 if lib.THOROUGH else 20):
        ev = []
        guarded(ev, unbounded, flavio, rng, ev)
        traces.append(ev)
    bad = lib.judge('OptimizeTrace', traces)
    return lib.finish('C17', bad, 'model_checking',
                      'all sequences of outcomes of two methods in three rounds (TLC) with scripted methods; real methods on parabolas, quartics and unbounded functions')
