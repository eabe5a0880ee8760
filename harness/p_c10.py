"""C10: citations are complete, scoped and independent of history."""
import multiprocessing as mp
import os
import random
import warnings
import zlib

import yaml

import lib
from lib import guarded

NP = {'C9_bsmumu': -0.7, 'C10_bsmumu': 0.3, 'CVL_bctaunutau': 0.1, 'C7_bs': 0.05, 'CVLL_bsbs': 1e-11}


with open(os.path.join(lib.REPO, 'flavio', 'data', 'citations.yml')) as _f:
    KEYS = sorted(yaml.safe_load(_f))


def wc(flavio):
    w = flavio.WilsonCoefficients()
    w.set_initial(NP, 160)
    return w


def observables(flavio):
    """all observables with a prediction, and arguments; the ones that need
    parton distributions (not installed) and the ones that have no value
    at the default point are left out"""
    from obsargs import more_args
    res = []
    for n, o in flavio.Observable.instances.items():
        if o.prediction is None or n.startswith('R_13('):
            continue
        for a in more_args(n):
            res.append((n, tuple(a)))
    return res


def label(what):
    return what[0] + ':' + what[1] + ':' + ','.join(repr(a) for a in what[2])


def compute(flavio, what):
    kind, n, a = what
    if kind == 'sm':
        flavio.sm_prediction(n, *a)
    elif kind == 'np':
        flavio.np_prediction(n, wc(flavio), *a)
    elif kind == 'unc':
        # two samples, in two worker processes
        flavio.sm_uncertainty(n, *a, N=2, threads=2)


def fresh(what):
    """in a process that has not computed anything yet"""
    import flavio
    warnings.simplefilter('ignore')
    try:
        with flavio.citations.collect() as c:
            compute(flavio, what)
        return what, sorted(c.set)
    except Exception as e:
        return what, type(e).__name__


class Session:
    def __init__(self, flavio, rng, table):
        self.f, self.rng, self.table = flavio, rng, table
        self.ev, self.told, self.scopes, self.cs = [], set(), [], {}
        c = flavio.citations
        self.cs[0] = c
        c.reset()
        self.known = KEYS
        self.ev.append({'op': 'session', 'init': ['Straub:2018kue'], 'cur': sorted(c.set), 'known': self.known})
        self.n = 1

    def tell(self, what):
        k = label(what)
        if k not in self.told:
            self.told.add(k)
            self.ev.append({'op': 'fresh', 'what': k, 'set': self.table[what]})

    def compute(self, what):
        self.tell(what)
        compute(self.f, what)
        self.ev.append({'op': 'compute', 'what': label(what)})

    def theory(self, what):
        self.tell(what)
        s = self.f.Observable[what[1]].theory_citations(*what[2])
        self.ev.append({'op': 'theory', 'what': label(what), 'set': sorted(s)})

    def reg(self, i, k):
        e = {'op': 'reg', 'i': i, 'k': k, 'raised': ''}
        try:
            self.cs[i].register(k)
        except KeyError:
            e['raised'] = 'KeyError'
        self.ev.append(e)

    def enter(self):
        s = self.f.citations.collect()
        i = self.n
        self.n += 1
        self.cs[i] = s.__enter__()
        self.scopes.append(s)
        self.ev.append({'op': 'enter', 'i': i})

    def exit(self, exc):
        s = self.scopes.pop()
        if exc:
            try:
                raise self.rng.choice([ValueError, KeyError, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit])('test')
            except BaseException as e:
                r = s.__exit__(type(e), e, e.__traceback__)
                if r:
                    self.ev.append({'op': 'exception', 'type': 'swallowed', 'msg': 'leaving a scope swallows exceptions'})
        else:
            s.__exit__(None, None, None)
        self.ev.append({'op': 'exit'})

    def read(self, i):
        c = self.cs[i]
        r = self.rng.random()
        if r < 0.4:
            s = list(c.set)
        elif r < 0.6:
            s = list(c)
        elif r < 0.8:
            s = c.string.split(',') if c.string else []
        else:
            s = str(c).split(',') if str(c) else []
        self.ev.append({'op': 'read', 'i': i, 'set': s})

    def current(self):
        k = [i for i, c in self.cs.items() if c is self.f.citations]
        self.ev.append({'op': 'current', 'i': k[0] if k else 999})

    def create(self):
        init = [self.rng.choice(self.known + ['vf:0000new'])] if self.rng.random() < 0.7 else []
        i = self.n
        self.n += 1
        self.cs[i] = type(self.cs[0])(init) if self.rng.random() < .5 else type(self.cs[0])(initial_citations=init)
        self.ev.append({'op': 'create', 'i': i, 'init': init})

    def close(self):
        while self.scopes:
            self.exit(False)
        if self.f.citations is not self.cs[0]:
            self.ev.append({'op': 'exception', 'type': 'scope', 'msg': 'outermost collection not restored'})
            self.f.citations = self.cs[0]


def replay(flavio, rng, table, hist, cheap):
    s = Session(flavio, rng, table)

    def go():
        a, b = 'Straub:2018kue', rng.choice(s.known)
        for h in hist:
            op = h['op']
            k = {'a': a, 'b': b, 'zz': 'vf:0000zz'}.get(h['k'])
            if op == 'reg':
                s.reg(h['i'], k)
            elif op == 'clear':
                s.cs[h['i']].clear()
                s.ev.append({'op': 'clear', 'i': h['i']})
            elif op == 'reset':
                s.cs[h['i']].reset()
                s.ev.append({'op': 'reset', 'i': h['i']})
            elif op == 'enter':
                s.enter()
            elif op in ('exit', 'raise'):
                s.exit(op == 'raise')
            else:
                what = rng.choice(cheap)
                (s.compute if rng.random() < 0.7 or what[0] != 'sm' else s.theory)(what)
            s.current()
            s.read(rng.choice(sorted(s.cs)))
        for i in sorted(s.cs):
            s.read(i)
    guarded(s.ev, go)
    s.close()
    return s.ev


def walk(flavio, rng, table, whats):
    """a long session computing the given things in order, in nested scopes"""
    s = Session(flavio, rng, table)

    def go():
        for what in whats:
            r = rng.random()
            if r < 0.25 and len(s.scopes) < 4:
                s.enter()
            elif r < 0.4 and s.scopes:
                s.exit(rng.random() < 0.5)
            elif r < 0.45:
                i = rng.choice(sorted(s.cs))
                op = rng.choice(['clear', 'reset'])
                getattr(s.cs[i], op)()
                s.ev.append({'op': op, 'i': i})
            elif r < 0.5:
                s.reg(rng.choice(sorted(s.cs)), rng.choice(s.known + ['vf:0000zz', '']))
            elif r < 0.53:
                s.create()
            if what[0] == 'sm' and rng.random() < 0.6:
                s.theory(what)
            else:
                s.compute(what)
            if rng.random() < 0.3:
                s.read(rng.choice(sorted(s.cs)))
            s.current()
        for i in sorted(s.cs):
            s.read(i)
    guarded(s.ev, go)
    s.close()
    return s.ev


def worker(job):
    """one long-lived process: many sessions one after the other"""
    import flavio
    warnings.simplefilter('ignore')
    seed, table, groups, hists, cheap = job
    # forked processes share flavio's own collection (by design): this
    # process, which stands for a session, gets one of its own
    flavio.citations = type(flavio.citations)(['Straub:2018kue'])
    rng = random.Random(seed)
    traces = []
    for g in groups:
        traces.append(walk(flavio, rng, table, g))
    for h in hists:
        traces.append(replay(flavio, rng, table, h, cheap))
    return traces


def main():
    flavio = lib.load_flavio()
    warnings.simplefilter('ignore')
    rng = random.Random(lib.SEED)
    hists = lib.generate('CitationsMC', 'CitationsMC5.cfg' if lib.THOROUGH else 'CitationsMC4.cfg', timeout=900)
    obs = observables(flavio)
    if not lib.THOROUGH:
        # all observables; a quarter of those with arguments with several values
        names = sorted({n for n, a in obs})
        several = {n for n in names if rng.random() < 0.3}
        pick = {n: rng.choice([a for m, a in obs if m == n]) for n in names if n not in several}
        obs = [(n, a) for n, a in obs if n in several or pick[n] == a]
    whats = [('sm', n, a) for n, a in obs]
    nps = rng.sample(obs, len(obs) if lib.THOROUGH else 120)
    whats += [('np', n, a) for n, a in nps]
    ctx = mp.get_context('fork')
    table, skipped = {}, []
    # every task runs in a new process, forked before anything is computed
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        for what, s in pool.imap_unordered(fresh, whats, chunksize=1):
            if isinstance(s, str):
                skipped.append((label(what), s))
            else:
                table[what] = s
    lib.COV.notes['fresh_sessions'] = len(whats)
    lib.COV.notes['without_value'] = sorted(skipped)[:60]
    whats = [w for w in whats if w in table]
    # a few in worker processes of their own
    uncs = [w for w in rng.sample(whats, 60) if w[0] == 'sm'][:30]
    jobs = []
    allh = rng.sample(hists, min(len(hists), 4000 if lib.THOROUGH else 400))
    nw = 8
    for k in range(nw):
        mine = []
        for w in whats:
            if zlib.crc32(w[1].encode()) % nw == k:
                mine += [w] * rng.choice([1, 2, 2])
        rng.shuffle(mine)
        groups = [mine[j:j + 40] for j in range(0, len(mine), 40)]
        cheap = rng.sample([w for w in whats if w[0] == 'sm'], 20)
        sub = {w: table[w] for w in set(mine) | set(cheap)}
        jobs.append((rng.random(), sub, groups, allh[k::nw], cheap))
    with ctx.Pool(nw) as pool:
        res = pool.map(worker, jobs, chunksize=1)
    traces = [t for r in res for t in r]
    for w in uncs:
        table[('unc',) + w[1:]] = table[w]
    if uncs:
        traces.append(walk(flavio, rng, table, [('unc',) + w[1:] for w in uncs]))
    bad = lib.judge('CitationsTrace', traces)
    return lib.finish('C10', bad, 'model_checking',
                      'all histories of operations on nested collections (TLC), all observables: new session against sessions that computed others before')


if __name__ == '__main__':
    main()
