"""C04: a constraint string means exactly what is written."""
import random

import lib
from lib import fp, guarded

REJ = (ValueError, TypeError, KeyError, AssertionError, IndexError, OverflowError, ZeroDivisionError, AttributeError)


def dist(d):
    n = type(d).__name__
    if n == 'DeltaDistribution':
        return {'k': 'delta', 'm': fp(d.central_value)}
    if n == 'NormalDistribution':
        return {'k': 'normal', 'm': fp(d.central_value), 's': fp(d.standard_deviation)}
    if n == 'AsymmetricNormalDistribution':
        return {'k': 'asym', 'm': fp(d.central_value), 'r': fp(d.right_deviation), 'l': fp(d.left_deviation)}
    if n == 'GaussianUpperLimit':
        return {'k': 'limit', 'limit': fp(d.limit), 'cl': fp(d.confidence_level)}
    if n == 'UniformDistribution':
        return {'k': 'uniform', 'm': fp(d.central_value), 'h': fp(d.half_range)}
    if n == 'LogNormalDistribution':
        return {'k': 'lognormal', 'm': fp(d.central_value), 'f': fp(d.factor)}
    if n == 'HalfNormalDistribution':
        return {'k': 'half', 'm': fp(d.central_value), 's': fp(d.standard_deviation)}
    return {'k': n}


def number(rng, kind):
    def digits(n):
        return ''.join(rng.choice('0123456789') for _ in range(n))

    def nz(s):
        return s if s.strip('0.') else s[:-1] + '7'
    if kind == 'C':
        r = rng.random()
        if r < 0.15:
            return digits(rng.randint(1, 4))
        if r < 0.2:
            return digits(1) + '.'
        return digits(rng.choice([1, 1, 2, 3])) + '.' + digits(rng.randint(1, 4))
    if kind == 'D':
        return nz(digits(rng.randint(1, 3)))
    if kind == 'F':
        return nz(digits(rng.choice([1, 1, 2])) + '.' + digits(rng.randint(1, 4)))
    if kind == 'X':
        return rng.choice(['0', '1', '2', '3', '5', '7', '10', '12', '03'])
    if kind == 'P':
        return rng.choice(['95', '90', '68.3', '50', '99.7', '1', '0.5'])
    if kind == 'G':
        return rng.choice(['1.5', '2', '1.05', '3.25', '10', '1.1'])


def fill(rng, tpl):
    """Put numbers into a template of the grammar."""
    lo, hi = sorted([rng.randint(0, 99), rng.randint(100, 999)])
    if rng.random() < 0.5:
        lo, hi = lo / 100., hi / 100.
    X = number(rng, 'X')
    out = []
    positive = '<' in tpl
    nonzero = '/' in tpl
    for p in tpl:
        if p == 'A':
            out.append('%s' % lo)
        elif p == 'B':
            out.append('%s' % hi)
        elif p == 'X':
            out.append(X)
        elif p == 'C' and (positive or nonzero):
            out.append(number(rng, 'F'))
        elif p in 'CDFPG' and p:
            out.append(number(rng, p))
        else:
            out.append(p[0] if p.endswith('_') else p)
    return ''.join(out)


ALPHABET = list('0123456789') + list('..()()+-±*/^eE<[],@%CL ') + ['\\pm', '−', 'pm', '+-', ' ± ', '1e', '10^', '+0.1', '-0.2', '(3)']


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        k = rng.randrange(len(s) + 1)
        if r < 0.4:
            s = s[:k] + rng.choice(ALPHABET) + s[k:]
        elif r < 0.7 and s:
            k = min(k, len(s) - 1)
            s = s[:k] + s[k + 1:]
        elif r < 0.85 and s:
            k = min(k, len(s) - 1)
            s = s[:k] + rng.choice(ALPHABET) + s[k + 1:]
        elif len(s) > 1:
            k = min(k, len(s) - 2)
            s = s[:k] + s[k + 1] + s[k] + s[k + 2:]
    return s


def usable(s):
    """within the range of the specification's numbers"""
    import re
    if not s or any(len(x.replace('.', '')) > 8 for x in re.findall(r'[\d.]+', s)):
        return False
    return not re.search(r'[eE^][-+−(]*\d{3,}', s.replace(' ', ''))


def read(flavio, ev, s, canon):
    pe = flavio._parse_errors
    e = {'op': 'str', 's': list(s), 'canon': canon, 'raised': '', 'ds': []}
    try:
        e['ds'] = [dist(d) for d in pe.constraints_from_string(s)]
    except REJ as x:
        e['raised'] = lib.exc_name(x)
    ev.append(e)


def setc(flavio, rng, ev, s, canon):
    e = {'op': 'set', 's': list(s), 'canon': canon, 'raised': '', 'c': fp(0), 'r': fp(0), 'l': fp(0), 'slo': fp(0), 'shi': fp(0)}
    c = flavio.ParameterConstraints() if rng.random() < 0.5 else flavio.classes.Constraints()
    try:
        if rng.random() < 0.5:
            c.set_constraint('vf_par', s)
        else:
            c.set_constraint('vf_par', constraint_string=s)
        ok = True
    except REJ as x:
        e['raised'] = lib.exc_name(x)
        ok = False
    if ok:
        e['c'] = fp(c.get_central('vf_par'))
        r, l = c.get_1d_errors_rightleft()['vf_par']
        e['r'], e['l'] = fp(r), fp(l)
        d = c._parameters['vf_par'][1]
        e['slo'], e['shi'] = fp(d.support[0]), fp(d.support[-1])
    elif 'vf_par' in c.all_parameters:
        e['raised'] = ''
    ev.append(e)
    flavio.Parameter.instances.pop('vf_par', None)


def efs(flavio, ev, s, canon):
    pe = flavio._parse_errors
    e = {'op': 'efs', 's': list(s), 'canon': canon, 'raised': '', 'c': fp(0), 'c2': fp(0), 'sym': [], 'asym': [], 'sym2': [], 'asym2': []}
    try:
        r = pe.errors_from_string(s)
    except REJ as x:
        e['raised'] = lib.exc_name(x)
        ev.append(e)
        return

    def put(r, suf):
        e['c' + suf] = fp(r['central_value'])
        e['sym' + suf] = [{'sym': True, 'r': fp(x), 'l': fp(x)} for x in r['symmetric_errors']]
        e['asym' + suf] = [{'sym': False, 'r': fp(x), 'l': fp(y)} for x, y in r['asymmetric_errors']]
    put(r, '')
    try:
        put(pe.errors_from_constraints([(None, d) for d in pe.constraints_from_string(s)]), '2')
    except ValueError as x:
        # errors of zero are no distribution
        e['raised'] = lib.exc_name(x)
    ev.append(e)


def dicts(flavio, rng, ev):
    P = flavio.statistics.probability
    ds, ex = [], []

    def num(v):
        return rng.choice([v, str(v), float(v)])

    def pos():
        return round(rng.uniform(0.1, 9), 3)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['normal', 'delta', 'asym', 'uniform', 'lognormal', 'half', 'limit'])
        m, s = round(rng.uniform(-9, 9), 3) or 1.5, pos()
        if k == 'normal':
            ds.append(dict(distribution='normal', central_value=num(m), standard_deviation=num(s)))
            ex.append(dict(k=k, m=fp(m), s=fp(s)))
        elif k == 'delta':
            ds.append(dict(distribution='delta', central_value=num(m)))
            ex.append(dict(k=k, m=fp(m)))
        elif k == 'asym':
            r = pos()
            ds.append(dict(distribution='asymmetric_normal', left_deviation=num(s), central_value=num(m), right_deviation=num(r)))
            ex.append(dict(k=k, m=fp(m), r=fp(r), l=fp(s)))
        elif k == 'uniform':
            ds.append(dict(distribution='uniform', half_range=num(s), central_value=num(m)))
            ex.append(dict(k=k, m=fp(m), h=fp(s)))
        elif k == 'lognormal':
            f = round(1 + pos(), 3)
            ds.append(dict(distribution='log_normal', factor=num(f), central_value=num(m)))
            ex.append(dict(k=k, m=fp(m), f=fp(f)))
        elif k == 'half':
            ds.append(dict(distribution='half_normal', standard_deviation=num(m), central_value=num(s)))
            ex.append(dict(k=k, m=fp(s), s=fp(m)))
        else:
            cl = rng.choice([0.9, 0.95])
            ds.append(dict(distribution='gaussian_upper_limit', confidence_level=num(cl), limit=num(s)))
            ex.append(dict(k=k, limit=fp(s), cl=fp(cl)))
    bad = rng.random() < 0.15
    if bad:
        ds[0] = dict(ds[0], **rng.choice([{'distribution': 'normall'}, {'nonsense': 1}]))
        if rng.random() < 0.3:
            ds[0].pop('distribution')
    arg = ds[0] if len(ds) == 1 and rng.random() < 0.5 else ds
    e = {'op': 'dict', 'd': ex, 'ds': [], 'raised': '', 'bad': bad}
    try:
        e['ds'] = [dist(d) for d in P.dict2dist(arg)]
    except REJ as x:
        e['raised'] = lib.exc_name(x)
    ev.append(e)
    # errors of one component of a multivariate constraint
    n = rng.choice([2, 3])
    mu, sd = [round(rng.uniform(-9, 9), 3) for _ in range(n)], [pos() for _ in range(n)]
    num = rng.randrange(n)
    D = P.MultivariateNormalDistribution(mu, [[sd[a] * sd[b] * (1 if a == b else 0.3) for b in range(n)] for a in range(n)])
    r = flavio._parse_errors.errors_from_constraints([(num, D)])
    ev.append({'op': 'efc', 'num': num + 1, 'mu': [fp(x) for x in mu], 'sd': [fp(x) for x in sd], 'c': fp(r['central_value']),
               'sym': [fp(x) for x in r['symmetric_errors']], 'asym': r['asymmetric_errors']})
    # contradictory or missing specification
    c = flavio.classes.Constraints()
    kw = rng.choice([{}, {'constraint_string': '1(1)', 'constraint_dict': ds[0]}])
    e = {'op': 'dict', 'd': [], 'ds': [], 'raised': '', 'bad': True}
    try:
        c.set_constraint('vf_par', **kw)
    except REJ as x:
        e['raised'] = lib.exc_name(x)
    ev.append(e)


def main():
    flavio = lib.load_flavio()
    rng = random.Random(lib.SEED)
    tpls = lib.generate('ErrorStringsMC', 'ErrorStringsMC3.cfg' if lib.THOROUGH else 'ErrorStringsMC.cfg', mem='8g', workers=6)
    n = 60000 if lib.THOROUGH else 5000
    # the short forms all, the long ones sampled
    small = [t for t in tpls if len(t) <= 7]
    pick = rng.sample(small, min(len(small), n // 4)) + [rng.choice(tpls) for _ in range(n - min(len(small), n // 4))]
    traces, ev = [], []

    def one(s, canon):
        r = rng.random()
        if r < 0.6:
            read(flavio, ev, s, canon)
        elif r < 0.8:
            setc(flavio, rng, ev, s, canon)
        else:
            # the low-level function does not know unicode minus signs
            if '−' in s:
                s = s.replace('−', '-')
            efs(flavio, ev, s, canon)
    for k, t in enumerate(pick):
        s = fill(rng, t)
        if usable(s):
            guarded(ev, one, s, True)
        m = mutate(rng, s)
        if usable(m):
            guarded(ev, one, m, False)
        if k % 10 == 0:
            guarded(ev, dicts, flavio, rng, ev)
        if len(ev) > 30:
            traces.append(list(ev))
            del ev[:]
    if ev:
        traces.append(list(ev))
    bad = lib.judge('ErrorStringsTrace', traces)
    return lib.finish('C04', bad, 'model_checking',
                      'all %d templates of the notation with up to %d errors checked to have one reading; %d strings of the notation, '
                      'as many near-misses and dictionaries read by the real parser' % (len(tpls), 3 if lib.THOROUGH else 2, len(pick)))
