"""Analyses many witnesses in parallel; nothing that goes wrong in one is lost."""
import os, signal, time, traceback
from multiprocessing import get_context

_F = None
_END = 0
BUDGET = 500      # seconds for one pool


def _call(i):
    t = time.time()
    left = int(_END - t)
    try:
        if left < 1:
            raise TimeoutError('analysis time budget used up')
        signal.alarm(min(120, left))
        r = _F(i)
    except BaseException as e:      # including Fork objects, which cannot be pickled
        r = {'error': '%s: %s' % (type(e).__name__, str(e)[:300]), 'tb': traceback.format_exc()[-600:]}
    finally:
        signal.alarm(0)
    r['t'] = time.time() - t
    return i, r


def _on_alarm(*a):
    raise TimeoutError('analysis time limit')


def pmap(f, n):
    """[f(0), .., f(n-1)]; f returns a dict of plain data"""
    global _F, _END
    _F = f
    _END = time.time() + BUDGET
    signal.signal(signal.SIGALRM, _on_alarm)
    out = [None] * n
    if n == 0:
        return out
    with get_context('fork').Pool(min(8, n, os.cpu_count() or 4)) as p:
        for i, r in p.imap_unordered(_call, range(n), chunksize=1):
            out[i] = r
    return out


def cached(name, key, f):
    """result of f(), kept under .work for the other checks of the same tree"""
    import json, build
    p = os.path.join(build.WORK, 'results', name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with build.Lock('results-' + name):
        if os.path.exists(p):
            try:
                d = json.load(open(p))
                if d['key'] == key:
                    return d['value']
            except (ValueError, KeyError):
                pass
        v = f()
        json.dump({'key': key, 'value': v}, open(p, 'w'))
        return json.loads(json.dumps(v))


def code_digest():
    import build, glob
    return build.digest(*[open(x).read() for x in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '*.py')))])
