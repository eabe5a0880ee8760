"""Shared machinery of all checks: running flavio from /repo, encoding
observations, running TLC, judging traces, writing evidence.

The verdict on every property is TLC's: a driver only *executes* the real code
on behaviours and writes down what it observed; the TLA+ trace specification
decides whether the observation is one the specification allows.
"""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'
TLA_CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = 8
T0 = time.time()

_scratch = None
_lock = threading.Lock()


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf_')
        import atexit
        pid = os.getpid()

        def clean():
            # forked children (multiprocessing pools) must not remove it
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def load_flavio():
    """Import flavio from the current working tree of /repo."""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch(), 'mpl')
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import flavio
    assert os.path.abspath(flavio.__file__).startswith(os.path.abspath(REPO) + os.sep), flavio.__file__
    # loggers of dependencies are irrelevant here
    return flavio


# --------------------------------------------------------------------------
# encoding of observations

NAN = [0, 9999]
WEIRD = [2, 9999]       # not a number at all (None, a string, an array, ...)


def fp(x):
    """Encode a float as [m, e] meaning m*10^e with nine significant digits
    (see spec/FP.tla)."""
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.size != 1:
                return WEIRD
            x = x.reshape(-1)[0]
        if isinstance(x, (str, bytes, bool)) or x is None:
            return WEIRD
        if isinstance(x, complex) or (hasattr(x, 'imag') and abs(complex(x).imag) > 0):
            if complex(x).imag != 0:
                return WEIRD
            x = complex(x).real
        x = float(x)
    except Exception:
        return WEIRD
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return [1 if x > 0 else -1, 9999]
    if x == 0:
        return [0, 0]
    s = '%.8e' % x
    mant, ex = s.split('e')
    m = int(mant.replace('.', ''))
    return [m, int(ex) - 8]


def fpc(z):
    """complex -> pair of encoded floats"""
    try:
        z = complex(z)
    except Exception:
        return [WEIRD, WEIRD]
    return [fp(z.real), fp(z.imag)]


def bits(x):
    """A string that identifies the observed value exactly (bit for bit)."""
    import numpy as np
    try:
        if isinstance(x, (list, tuple)):
            return '[' + ','.join(bits(y) for y in x) + ']'
        if isinstance(x, dict):
            return '{' + ','.join(sorted('%s:%s' % (k, bits(v)) for k, v in x.items())) + '}'
        if isinstance(x, np.ndarray):
            return bits(x.tolist())
        if isinstance(x, complex) or isinstance(x, np.complexfloating):
            z = complex(x)
            return '(%s,%s)' % (bits(z.real), bits(z.imag))
        if isinstance(x, (int, float, np.floating, np.integer)):
            f = float(x)
            if math.isnan(f):
                return 'nan'
            if f == 0:
                return '0'
            return f.hex()
        return type(x).__name__ + ':' + repr(x)
    except Exception as e:
        return 'unrepresentable:' + type(e).__name__


def exc_name(e):
    return type(e).__name__


# --------------------------------------------------------------------------
# TLC

class TLCError(Exception):
    pass


def write_cfg(path, lines):
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def run_tlc(module, cfg_lines=None, cfg=None, env=None, workers=1, args=(), timeout=600, mem='2g',
            allow_fail=False, specdir=None):
    """Run TLC on spec/<module>.tla; returns stdout. A private metadir is used."""
    d = tempfile.mkdtemp(dir=scratch(), prefix='tlc_')
    if cfg is None:
        cfg = os.path.join(d, module + '.cfg')
        write_cfg(cfg, cfg_lines)
    else:
        cfg = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4',
           '-Djava.io.tmpdir=' + d,
           '-cp', TLA_JAR + ':' + TLA_CM, 'tlc2.TLC', '-metadir', os.path.join(d, 'm'), '-noGenerateSpecTE',
           '-workers', str(workers), '-config', cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=specdir or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        shutil.rmtree(d, ignore_errors=True)
        raise TLCError('TLC timed out on %s' % module)
    out = p.stdout.decode('utf-8', 'replace')
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0 and not allow_fail:
        raise TLCError('TLC failed on %s (rc=%d):\n%s' % (module, p.returncode, out[-4000:]))
    return p.returncode, out


def tlc_stats(out):
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    g, d = (0, 0)
    if m:
        g, d = (int(x.replace(',', '')) for x in m[-1])
    return g, d


class Coverage:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}


COV = Coverage()


def model_check(module, cfg, workers=4, args=(), timeout=600, mem='4g', env=None):
    """Exhaustive TLC run of a design model; any violation is a machinery or
    specification error on an unchanged design (the code is not involved)."""
    t = time.time()
    rc, out = run_tlc(module, cfg=cfg, workers=workers, args=args, timeout=timeout, mem=mem, env=env)
    g, d = tlc_stats(out)
    if d == 0 or 'Model checking completed. No error has been found' not in out:
        raise TLCError('model checking of %s did not complete:\n%s' % (module, out[-3000:]))
    COV.states += d
    COV.transitions += g
    COV.notes.setdefault('models', []).append(
        {'module': module, 'cfg': cfg, 'generated': g, 'distinct': d, 'wall_s': round(time.time() - t, 1)})
    return out


def generate(module, cfg, timeout=600, workers=4, args=(), env=None, mem='4g'):
    """Let TLC print behaviours of a model as JSON (lines starting with
    HIST) and return them, in a canonical order (the order must not depend on
    the scheduling of TLC's workers)."""
    out = model_check(module, cfg, workers=workers, args=args, timeout=timeout, env=env, mem=mem)
    hs = set()
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"HIST '):
            line = json.loads(line)
        if line.startswith('HIST '):
            hs.add(line[5:])
    hs = [json.loads(x) for x in sorted(hs)]
    COV.notes['generated_behaviours'] = COV.notes.get('generated_behaviours', 0) + len(hs)
    return hs


_REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)
_ACC = re.compile(r'<<\s*"ACCEPT",\s*(\d+)\s*>>')


def _judge(module, traces, consts, timeout, mem):
    d = tempfile.mkdtemp(dir=scratch(), prefix='tr_')
    path = os.path.join(d, 'trace.ndjson')
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps({'ev': t}) + '\n')
    cfg = ['INIT TraceInit', 'NEXT TraceNext', 'CONSTRAINT TraceReport', 'CHECK_DEADLOCK FALSE']
    if consts:
        cfg.append('CONSTANTS')
        cfg += ['  %s = %s' % kv for kv in consts.items()]
    rc, out = run_tlc(module, cfg_lines=cfg, env={'VERIF_TRACE': path}, timeout=timeout, mem=mem, allow_fail=True)
    g, dst = tlc_stats(out)
    with _lock:
        COV.notes['trace_states'] = COV.notes.get('trace_states', 0) + dst
        COV.states += dst
        COV.transitions += g
    rej = {int(a): (int(b), json.loads('"%s"' % c)) for a, b, c in _REJ.findall(out)}
    acc = {int(a) for a in _ACC.findall(out)}
    shutil.rmtree(d, ignore_errors=True)
    return rc, out, rej, acc


def judge(module, traces, consts=None, shards=None, timeout=800, mem='2g', names=None):
    """Let TLC judge recorded traces against spec/<module>.tla.

    Every trace gets a verdict: accepted, or rejected with the index of the
    first event the specification does not allow and the violated clause.
    Returns a list of dicts for the rejected ones.
    """
    traces = [t for t in traces]
    n = len(traces)
    if n == 0:
        return []
    if shards is None:
        tot = sum(len(t) for t in traces)
        shards = max(1, min(NCPU - 1, tot // 150 + 1, n))
    idx = [list(range(k, n, shards)) for k in range(shards)]
    bad = []
    judged = set()

    def one(ix):
        sub = [traces[i] for i in ix]
        rc, out, rej, acc = _judge(module, sub, consts, timeout, mem)
        if rc == 0 and len(rej) + len(acc) == len(sub):
            return [(ix[a - 1], r) for a, r in rej.items()], ix
        # TLC stopped: an observation lies outside the domain of the
        # specification.  Judge the traces one at a time so that exactly the
        # offending one is rejected.
        if len(sub) > 1:
            res = []
            done = []
            h = len(sub) // 2
            for part in (ix[:h], ix[h:]):
                r, dn = one(part)
                res += r
                done += dn
            return res, done
        if len(rej) == 1:
            return [(ix[0], list(rej.values())[0])], ix
        m = re.search(r'(Error: .*)', out, re.S)
        msg = (m.group(1) if m else out)[-1500:]
        if 'rror' not in out or 'java.lang.OutOfMemoryError' in out or 'Parsing or semantic analysis failed' in out \
                or 'Unknown operator' in out:
            raise TLCError('TLC machinery failure on %s: %s' % (module, out[-3000:]))
        return [(ix[0], (0, 'observation outside the domain of the specification: ' + ' '.join(msg.split())[:700]))], ix

    with ThreadPoolExecutor(shards) as ex:
        for r, dn in ex.map(one, idx):
            judged.update(dn)
            for i, (ev, clause) in r:
                bad.append({'trace': i, 'event': ev, 'clause': clause})
    assert len(judged) == n, (len(judged), n)
    COV.traces += n
    COV.events += sum(len(t) for t in traces)
    bad.sort(key=lambda b: b['trace'])
    for b in bad:
        t = traces[b['trace']]
        b['observed'] = t[b['event'] - 1] if 0 < b['event'] <= len(t) else None
        b['history'] = t[:b['event']]
        b['module'] = module
    COV.notes.setdefault('trace_specs', {})
    k = COV.notes['trace_specs']
    k[module] = k.get(module, 0) + n
    # keep a sample of an accepted history for the evidence
    if len(COV.samples) < 4 and n:
        COV.samples.append({'module': module, 'history': [short(e) for e in traces[0][:6]]})
    return bad


def short(e):
    s = json.dumps(e)
    return s if len(s) < 400 else s[:400] + '...'


# --------------------------------------------------------------------------
# known findings, evidence, exit

def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        kf = json.load(f)
    return [k for k in kf['findings'] if k['property'] == prop]


def finish(prop, bad, level, coverage_text, extra=None, key=None):
    """Write evidence, print verdict lines, return the exit code.

    `key(b)` maps a rejection to the identifier used in known_findings.json.
    """
    kfs = {k['key']: k for k in known_findings(prop)}
    new, known = [], {}
    for b in bad:
        k = key(b) if key else None
        if k is not None and k in kfs:
            known.setdefault(k, b)
        else:
            new.append(b)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, kfs[k]['what']))
    vpath = None
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        vpath = os.path.join(VERIF, 'replays', '%s-%s-seed%d.json' % (prop, TIER, SEED))
        with open(vpath, 'w') as f:
            json.dump({'property': prop, 'seed': SEED, 'tier': TIER, 'rejections': new[:20]}, f, indent=1, default=repr)
    cov = {
        'states': COV.states, 'transitions': COV.transitions,
        'traces_validated_against_impl': COV.traces, 'events_validated': COV.events,
        'samples': COV.samples,
        'what': coverage_text,
    }
    cov.update(COV.notes)
    if extra:
        cov.update(extra)
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
          'wall_s': round(time.time() - T0, 2), 'violations': len(new),
          'violated_clauses': [b['clause'] for b in new[:20]],
          'known_findings': sorted(known)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for b in new[:8]:
        print('  rejected: module=%s trace=%d event=%d clause: %s' % (b.get('module'), b['trace'], b['event'], b['clause']))
        print('    observed: %s' % short(b.get('observed')))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, vpath))
        return 1
    print('OK property=%s tier=%s traces=%d events=%d states=%d wall=%.1fs' % (
        prop, TIER, COV.traces, COV.events, COV.states, time.time() - T0))
    return 0


def guarded(trace, fn, *a, **k):
    """Run one driver step on the real code; an exception that the driver does
    not expect becomes an event, which no trace specification allows."""
    try:
        return fn(*a, **k)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''
        trace.append({'op': 'exception', 'type': exc_name(e), 'msg': str(e)[:200], 'where': where})
        return None
