"""C06: every way of writing an input file means the same constraints."""
import os
import random
import warnings

import numpy as np
import yaml

import lib
from lib import fp, bits, guarded

DEFS = {'vfn0': [], 'vfn1': [], 'vfn2': [], 'vfn3': [], 'vfa': ['q2'], 'vfb': ['q2min', 'q2max'], 'vfc': ['z', 'a'], 'vfd': ['E', 'q', 'b']}
PARS = ['vfp0', 'vfp1', 'vfp2', 'vfp3', 'vfp4']
META = ['inspire', 'hepdata', 'experiment', 'url', 'description']


def dump(rng, data):
    """YAML text in one of the equivalent styles"""
    return yaml.dump(data, default_flow_style=rng.choice([None, True, False]), allow_unicode=rng.random() < 0.7,
                     sort_keys=False, width=rng.choice([30, 80, 1000]))


def num(rng, lo, hi, nd=3):
    return round(rng.uniform(lo, hi), nd)


def value(rng, corr):
    """a value of the file: (YAML object, description)"""
    c, e, f, g = num(rng, -20, 20), num(rng, 0.1, 3), num(rng, 0.1, 3), num(rng, 0.1, 2)
    x = rng.choice(['', '', ' e-3', 'e2', ' *1e-1', ' 10^3', ' * 10^(-2)'])
    forms = ['%s ± %s', '%s +- %s', '%s \\pm %s ± ' + str(g), '%s ± %s +- ' + str(f), '%s + %s - ' + str(f),
             '%s+%s-' + str(f) + '±' + str(g), '%s ± %s ± ' + str(f) + ' ± ' + str(g)]
    r = rng.random()
    if r < 0.2:
        s = '%s(%d)' % (c, rng.randint(1, 900)) + ('(%d)' % rng.randint(1, 99) if rng.random() < 0.4 else '') + x
    elif r < 0.8 or corr:
        s = rng.choice(forms) % (c, e)
        if rng.random() < 0.5:
            s = '(' + s + ')'
        s += x
        if corr and c < 0 and rng.random() < 0.4:
            s = s.replace('-', '−', 1)
    elif r < 0.87:
        if rng.random() < 0.5:
            return c, {'k': 'str', 's': list(repr(c))}
        s = repr(c)
    else:
        def dd():
            kind = rng.choice(['normal', 'delta', 'asym'])
            cv = lambda z: rng.choice([z, str(z), '%.6e' % z])
            if kind == 'normal':
                d = {'distribution': 'normal', 'central_value': cv(c), 'standard_deviation': cv(e)}
                m = {'k': 'normal', 'm': fp(c), 's': fp(e)}
            elif kind == 'delta':
                d = {'distribution': 'delta', 'central_value': cv(c)}
                m = {'k': 'delta', 'm': fp(c)}
            else:
                d = {'distribution': 'asymmetric_normal', 'central_value': cv(c), 'right_deviation': cv(e), 'left_deviation': cv(f)}
                m = {'k': 'asym', 'm': fp(c), 'r': fp(e), 'l': fp(f)}
            return d, m
        d, m = dd()
        return d, {'k': 'dist', 'ds': [m]}
    return s, {'k': 'str', 's': list(s)}


def value_list(rng):
    c = num(rng, -20, 20)
    ds, ms = [], []
    for k in range(rng.randint(1, 3)):
        e = num(rng, 0.1, 3)
        ds.append({'distribution': 'normal', 'central_value': c, 'standard_deviation': e})
        ms.append({'k': 'normal', 'm': fp(c), 's': fp(e)})
    return ds, {'k': 'dists', 'ds': ms}


def posdef(M):
    return np.min(np.linalg.eigvalsh(np.array(M))) > 0.03


def correlation(rng, h):
    """numbers for a template of the model: (YAML object, description, n)"""
    n = h['n']
    f = rng.choice([0.1, 0.1, 0.03, 0.01, 1e-3, 1e-4])
    extra = {}

    def v(x):
        # distinct numbers for distinct entries, keeping symmetric entries equal
        return {10: 1, -10: -1}.get(x, round(x * f, 6))
    if h['form'] == 'number':
        x = v(h['M'][0][1]) if n > 1 else 0.5
        M = [[1 if i == j else x for j in range(n)] for i in range(n)]
        return (x, {'k': 'num', 'x': fp(x)}, M)
    one = lambda x: rng.choice([1, 1.0]) if x == 1 else x
    rows = [[one(v(x)) for x in r] for r in h['rows']]
    M = [[v(x) for x in r] for r in h['M']]
    return rows, {'k': 'rows', 'rows': [[fp(x) for x in r] for r in rows]}, M


def jitter(rng, h):
    """make the entries of the matrix distinct without changing the form"""
    n = h['n']
    d = {}
    for i in range(n):
        for j in range(i + 1, n):
            d[i, j] = rng.choice([0, -3, 6, 5, -2, 4.5, -6.5, 1])
    if h['form'] in ('number', 'bad'):
        return h
    M = [[10 if i == j else d[min(i, j), max(i, j)] for j in range(n)] for i in range(n)]
    rows = []
    for i, r in enumerate(h['rows']):
        if len(r) == n - i and len(r) != n:
            rows.append(M[i][i:])
        elif h['form'] in ('zeros', 'mixed'):
            rows.append([0 if j < i else M[i][j] for j in range(n)])
        else:
            rows.append(list(M[i]))
    return dict(h, M=M, rows=rows)


def strargs(kv):
    return [[a, repr(float(x))] for a, x in kv]


class World:
    def __init__(self, flavio, rng):
        self.f, self.rng = flavio, rng
        self.before = set(flavio.Measurement.instances)
        for o, a in DEFS.items():
            ob = flavio.Observable(o)
            if a:
                ob.arguments = list(a)
        for p in PARS:
            flavio.Parameter(p)
        self.decoy = flavio.Measurement('vf decoy')
        self.decoy.set_constraint('vfn0', '1.5 ± 0.25')
        self.decoy.set_constraint(('vfa', 1.0), '3.5 ± 0.25')
        self.ev = []

    def close(self):
        f = self.f
        for o in DEFS:
            del f.Observable.instances[o]
        for p in PARS:
            f.Parameter.instances.pop(p, None)
        for m in list(f.Measurement.instances):
            if m not in self.before:
                del f.Measurement.instances[m]

    # ---- writing ---------------------------------------------------------
    def obs(self, used, noarg):
        rng = self.rng
        while True:
            o = rng.choice([x for x in DEFS if (not DEFS[x]) == noarg])
            kv = [(a, rng.choice([rng.randint(0, 9), num(rng, 0.1, 9, 2)])) for a in DEFS[o]]
            key = (o,) + tuple(float(x) for a, x in kv)
            if key not in used:
                used.add(key)
                sh = list(kv)
                rng.shuffle(sh)
                return o, sh

    def entry(self, name, n, layout, corr, form):
        """-> (YAML data, description)"""
        rng = self.rng
        used = set()
        rows, items = [], []
        for k in range(n):
            o, kv = self.obs(used, noarg=layout.startswith('dict') or (layout in ('obsdist', 'new') and rng.random() < 0.3))
            y, d = value(rng, corr is not None)
            if layout == 'dictstr' and corr is None and rng.random() < 0.2:
                y, d = value_list(rng)
            rows.append({'name': o, 'args': strargs(kv), 'v': d})
            items.append((o, kv, y))
        meta = {a: rng.choice(['text %s' % a, 'A: b #c', 'yes', '±']) for a in META if rng.random() < 0.4}
        data = dict(meta)
        desc = {'name': name, 'layout': layout, 'meta': [[k, v] for k, v in meta.items()], 'corr': {'k': 'none'}, 'rows': rows}
        if layout in ('obsdist', 'new'):
            return self.distentry(name, n, layout, corr, items, data, desc)
        if layout == 'dictstr':
            data['values'] = {o: y for o, kv, y in items}
        else:
            lst = []
            for o, kv, y in items:
                x = [('name', o), ('value', y)] + kv
                rng.shuffle(x)
                lst.append(dict(x))
            data['values'] = lst
        if corr is not None:
            data['correlation'] = corr[0]
            desc['corr'] = corr[1]
        return data, desc

    def distentry(self, name, n, layout, corr, items, data, desc):
        """values given as distributions of several observables"""
        rng = self.rng
        if n == 1 or corr is None:
            M = [[1. if a == b else 0. for b in range(n)] for a in range(n)]
        else:
            M = corr[2]
        parts = rng.choice([1, 1, 2])
        mu = [num(rng, -20, 20) for _ in range(n)]
        ds = []
        sds = []
        for p in range(parts):
            sd = [num(rng, 0.1, 3) for _ in range(n)]
            if p:
                sd = [2 * x for x in sds[0]]     # same correlation in all parts
            sds.append(sd)
            d = {'distribution': 'multivariate_normal', 'central_value': list(mu)}
            if rng.random() < 0.5:
                d['covariance'] = [[M[a][b] * sd[a] * sd[b] for b in range(n)] for a in range(n)]
                if rng.random() < 0.5:
                    d['covariance'] = [[0] * a + r[a:] for a, r in enumerate(d['covariance'])]
            else:
                d['standard_deviation'] = sd
                d['correlation'] = [list(r) for r in M]
                if rng.random() < 0.3:
                    d['correlation'] = [[0] * a + list(r)[a:] for a, r in enumerate(M)]
                elif len({M[a][b] for a in range(n) for b in range(a)}) == 1 and rng.random() < 0.7:
                    d['correlation'] = M[0][1]
            ds.append(d)
        if n == 1:
            ds = [{'distribution': 'normal', 'central_value': mu[0], 'standard_deviation': sds[p][0]} for p in range(parts)]
        for k, r in enumerate(desc['rows']):
            r['v'] = {'k': 'dists', 'ds': [{'k': 'normal', 'm': fp(mu[k]), 's': fp(sds[p][k])} for p in range(parts)]}
        desc['corr'] = {'k': 'rows', 'rows': [[fp(x) for x in r] for r in M]}
        vals = ds[0] if parts == 1 and rng.random() < 0.5 else ds
        ol = []
        for o, kv, y in items:
            if not DEFS[o] and (layout == 'new' or rng.random() < 0.7):
                ol.append(o)
            elif layout == 'new':
                dv = dict(kv)
                ol.append([o] + [dv[a] for a in DEFS[o]])
            else:
                ol.append(o if not DEFS[o] else dict(rng.sample([('name', o)] + kv, 1 + len(kv))))
        if layout == 'obsdist':
            data['observables'] = ol
            data['values'] = vals
            return data, desc
        cons = [{'observables': ol, 'values': vals}]
        new = {'constraints': cons, 'arguments': {'name': name}, 'metadata': dict(data)}
        if not data and rng.random() < 0.5:
            del new['metadata']
        return new, desc

    # ---- reading ---------------------------------------------------------
    def got(self, m, keys=None):
        out = {'meta': [[a, str(getattr(m, a, ''))] for a in META] if keys is None else [], 'obs': [], 'pairs': []}
        ps = list(m.all_parameters) if keys is None else [k for k in keys if k in m.all_parameters]
        cen = m.get_central_all()
        rl = m.get_1d_errors_rightleft()
        for p in ps:
            t = p if isinstance(p, tuple) else (p,)
            r, l = rl.get(p, (None, None))
            out['obs'].append({'key': [t[0]] + [repr(float(x)) for x in t[1:]], 'c': fp(cen[p]), 'r': fp(r), 'l': fp(l)})
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                e = []
                for s in (1, -1):
                    x = dict(cen)
                    x[ps[i]] += rl[ps[i]][0]
                    x[ps[j]] += s * rl[ps[j]][0]
                    x = {k: x[k] for k in m.all_parameters}
                    lp = m.get_logprobability_all(x, exclude_parameters=[q for q in m.all_parameters if q not in (ps[i], ps[j])], delta=True)
                    e.append(fp(sum(lp.values())))
                out['pairs'].append({'i': i + 1, 'j': j + 1, 'pp': e[0], 'pm': e[1]})
        return out

    def snapshot(self):
        d = self.decoy
        return bits([d.get_central_all(), d.get_logprobability_all({'vfn0': 1.7, ('vfa', 1.0): 3.}),
                     {k: [m.name, len(m.all_parameters)] for k, m in self.f.Measurement.instances.items() if k in self.before}])

    def load(self, entries, kind):
        """entries: list of (YAML data, description)"""
        rng, f = self.rng, self.f
        path = os.path.join(lib.scratch(), 'vf_in_%d.yml' % rng.randint(0, 10**9))
        descs = [d for y, d in entries]
        if kind == 'new':
            data = [y for y, d in entries]
            if len(data) == 1 and rng.random() < 0.5:
                data = data[0]
        else:
            data = {d['name']: y for y, d in entries}
        with open(path, 'w') as fh:
            fh.write(dump(rng, data))
        e = {'op': 'load', 'kind': kind, 'entries': descs, 'defs': DEFS, 'raised': '', 'names': [], 'untouched': True, 'got': []}
        snap = self.snapshot()
        known = set(f.Measurement.instances)
        names = [d['name'] for d in descs]
        try:
            e['names'] = list(f.measurements.read_file(path))
        except Exception as x:
            e['raised'] = '%s: %s' % (lib.exc_name(x), str(x)[:100])
        if not e['raised']:
            e['got'] = [self.got(f.Measurement[n]) for n in names]
            e['untouched'] = self.snapshot() == snap and set(f.Measurement.instances) == known | set(names)
        os.remove(path)
        for n in set(f.Measurement.instances) - known:
            del f.Measurement.instances[n]
        self.ev.append(e)

    def params(self, h, bad=False):
        """correlated and uncorrelated parameter files"""
        rng, f = self.rng, self.f
        pc = f.ParameterConstraints()
        pc.set_constraint('vfp4', '7.5 ± 0.25')
        path = os.path.join(lib.scratch(), 'vf_in_%d.yml' % rng.randint(0, 10**9))
        defs = {p: [] for p in PARS}
        ps = rng.sample(PARS[:4], 4)
        groups, descs = [], []
        if h is None:
            data = {}
            rows = []
            for p in ps[:rng.randint(1, 4)]:
                y, d = value(rng, False)
                if bad:
                    y, d = '1.5 about', {'k': 'str', 's': list('1.5 about')}
                    bad = False
                data[p] = y
                rows.append({'name': p, 'args': [], 'v': d})
            if rng.random() < 0.15:
                data['vf_unknown'] = 1
                rows.append({'name': 'vf_unknown', 'args': [], 'v': {'k': 'str', 's': ['1']}})
            descs.append({'name': 'g', 'layout': 'param', 'meta': [], 'corr': {'k': 'none'}, 'rows': rows})
            reader = f.parameters.read_file_values
        else:
            data = []
            k = 0
            for hh in h:
                if k + hh['n'] > 4:
                    break
                corr = hh['c'] if 'c' in hh else correlation(rng, hh)
                rows, vals = [], []
                for p in ps[k:k + hh['n']]:
                    y, d = value(rng, True)
                    vals.append({p: y})
                    rows.append({'name': p, 'args': [], 'v': d})
                k += hh['n']
                data.append({'values': vals, 'correlation': corr[0]})
                descs.append({'name': 'g%d' % len(descs), 'layout': 'param', 'meta': [], 'corr': corr[1], 'rows': rows})
            reader = f.parameters.read_file_values_correlated
        if rng.random() < 0.3:
            # what is read replaces what was there
            pc.add_constraint([ps[0], 'vfp4'], f.statistics.probability.MultivariateNormalDistribution([1, 2], [[1, .5], [.5, 2]]))
        with open(path, 'w') as fh:
            fh.write(dump(rng, data))
        e = {'op': 'load', 'kind': 'param', 'entries': descs, 'defs': defs, 'raised': '', 'names': [d['name'] for d in descs],
             'untouched': True, 'got': []}
        four = lambda: bits([pc.get_central('vfp4'), list(pc.get_1d_errors_rightleft()['vfp4'])])
        b = four()
        had = set(pc.all_parameters)
        try:
            reader(path, pc)
        except Exception as x:
            e['raised'] = '%s: %s' % (lib.exc_name(x), str(x)[:100])
        if not e['raised']:
            e['got'] = [self.got(pc, [r['name'] for r in d['rows']]) for d in descs]
            e['untouched'] = four() == b and set(pc.all_parameters) == had | {r['name'] for d in descs for r in d['rows']}
        os.remove(path)
        self.ev.append(e)

    def meta(self):
        rng, f = self.rng, self.f
        names = rng.sample(PARS, 3)
        rows, data = [], {}
        for p in names:
            t = {k: rng.choice(['$%s_%s$' % (k, p), 'a: b', 'x #y']) for k in ('tex', 'description') if rng.random() < 0.7}
            data[p] = t
            rows.append({'tex': t.get('tex', ''), 'description': t.get('description', '')})
            f.Parameter.instances.pop(p, None)
        path = os.path.join(lib.scratch(), 'vf_in_%d.yml' % rng.randint(0, 10**9))
        with open(path, 'w') as fh:
            fh.write(dump(rng, data))
        f.parameters.read_file_metadata(path, f.ParameterConstraints())
        os.remove(path)
        got = [{'tex': f.Parameter[p].tex or '', 'description': getattr(f.Parameter[p], 'description', '') or ''} for p in names]
        # an unset TeX string of a parameter defaults to its name or to nothing
        for g, r, p in zip(got, rows, names):
            if not r['tex'] and g['tex'] in ('', p):
                g['tex'] = ''
        self.ev.append({'op': 'meta', 'rows': rows, 'got': got})


def main():
    flavio = lib.load_flavio()
    warnings.simplefilter('ignore')
    rng = random.Random(lib.SEED)
    np.random.seed(lib.SEED)
    hists = lib.generate('InputFilesMC', 'InputFilesMC.cfg')
    good = [h for h in hists if h['form'] != 'bad']
    badh = [h for h in hists if h['form'] == 'bad' and h['rows'] != h['M']]
    byform = {}
    for h in good:
        byform.setdefault((h['form'], h['n'], h['lay']), []).append(h)
    forms = sorted(byform)
    traces = []
    N = 600 if lib.THOROUGH else 90

    def pick(form=None):
        while True:
            h = jitter(rng, rng.choice(byform[form or rng.choice(forms)]))
            c = correlation(rng, h)
            if posdef(c[2]):
                h = dict(h)
                h['c'] = c
                return h, c

    for k in range(N):
        w = World(flavio, rng)
        try:
            # one entry in a form of the model, possibly with others beside it
            for form in rng.sample(forms, 4):
                h, c = pick(form)
                es = [w.entry('vf m%d' % 1, h['n'], h['lay'], c, h['form'])]
                for j in range(rng.choice([0, 1, 2])):
                    h2, c2 = pick()
                    lay = rng.choice(['liststr', 'dictstr', 'obsdist'])
                    es.append(w.entry('vf m%d' % (j + 2), h2['n'], lay, rng.choice([None, c2]), h2['form']))
                rng.shuffle(es)
                guarded(w.ev, w.load, es, 'old')
            h2, c2 = pick()
            guarded(w.ev, w.load, [w.entry('vf m%d' % j, h2['n'], 'new', c2, '') for j in range(rng.choice([1, 1, 3]))], 'new')
            lay = rng.choice(['liststr', 'dictstr'])
            guarded(w.ev, w.load, [w.entry('vf m1', rng.randint(1, 4), lay, None, '')], 'old')
            # files that state nothing sensible
            b = rng.choice(badh)
            es = [w.entry('vf m1', b['n'], rng.choice(['liststr', 'dictstr']), correlation(rng, b), '')]
            guarded(w.ev, w.load, es, 'old')
            y, d = w.entry('vf m1', 2, 'liststr', None, '')
            r = rng.random()
            if r < 0.3:
                y['values'][0]['name'] = d['rows'][0]['name'] = 'vf_nobody'
            elif r < 0.6:
                a = d['rows'][1]['args'].pop()[0]
                del y['values'][1][a]
            else:
                s = rng.choice(['1.5 about', '1.5 ± ', '', '1,5 ± 3', '< 3'])
                y['values'][1]['value'] = s
                d['rows'][1]['v'] = {'k': 'str', 's': list(s)}
            guarded(w.ev, w.load, [(y, d)], 'old')
            guarded(w.ev, w.params, None)
            guarded(w.ev, w.params, None, rng.random() < 0.3)
            guarded(w.ev, w.params, [pick()[0], pick()[0]])
            guarded(w.ev, w.params, [pick()[0]])
            if k % 6 == 0:
                x = rng.choice([10, -10])
                guarded(w.ev, w.params, [{'n': 2, 'form': 'full', 'M': [[10, x], [x, 10]], 'rows': [[10, x], [x, 10]]}])
            if k % 6 == 1:
                guarded(w.ev, w.params, [rng.choice(badh)])
            guarded(w.ev, w.meta)
        finally:
            w.close()
        traces.append(w.ev)
    bad = lib.judge('InputFilesTrace', traces)
    return lib.finish('C06', bad, 'model_checking',
                      'all forms of writing a correlation of up to three observables (TLC) with random numbers, in all layouts, several '
                      'entries per file, invalid files, and correlated/uncorrelated parameter files')
