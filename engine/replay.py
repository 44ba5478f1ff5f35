"""Replay server: runs harness functions on the ordinary, unmodified import of /repo.

Started with the repository's own interpreter (/opt/venv/bin/python); forks one child per connection.
Protocol: one JSON object per line: {module, fn, params, asg} -> {status, fails, obs}.
"""
import importlib
import json
import os
import signal
import socket
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VT_REPO', '/repo')


class Timeout(BaseException):
    pass


def _load():
    sys.path.insert(0, REPO)
    sys.path.insert(0, ROOT)
    warnings.simplefilter('ignore')
    import numpy as np
    import CommDspy as cd
    assert os.path.realpath(cd.__file__).startswith(os.path.realpath(REPO)), cd.__file__
    return cd, np


class _Rng:
    def __init__(self, h):
        self.h = h

    def normal(self, loc=0.0, scale=1.0, size=None):
        import numpy as np
        if size is None:
            sh = np.broadcast_shapes(np.shape(loc), np.shape(scale))
            size = sh if sh else None
        if np.any(np.asarray(scale) < 0):
            raise ValueError('scale < 0')
        return loc + scale * self.h.noise(size)

    def standard_normal(self, size=None, *a, **k):
        return self.h.noise(size)

    def randn(self, *s):
        return self.h.noise(s if s else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        import numpy as np
        if size is None:
            sh = np.broadcast_shapes(np.shape(low), np.shape(high))
            size = sh if sh else None
        return low + (high - low) * 0.125 * (self.h.noise(size, 'u') + 4.0)

    def random(self, size=None, **k):
        return self.uniform(0.0, 1.0, size)

    def rand(self, *s):
        return self.uniform(0.0, 1.0, s if s else None)

    def laplace(self, loc=0.0, scale=1.0, size=None):
        import numpy as np
        if size is None:
            sh = np.broadcast_shapes(np.shape(loc), np.shape(scale))
            size = sh if sh else None
        return loc + scale * self.h.noise(size, 'o')

    random_sample = ranf = sample = random
    logistic = gumbel = laplace

    def seed(self, *a):
        self.h.reseeded = True

    def make(self, *a, **k):
        if [x for x in list(a) + list(k.values()) if x is not None]:
            self.h.reseeded = True
        return self


def run_one(req, cd, np):
    from engine.harness import ConH, PathEnd
    h = ConH(cd, np, req['asg'])
    h.cd_root = REPO
    h.fresh()
    mod = importlib.import_module('props.' + req['module'])
    fn = getattr(mod, req['fn'])
    rng = _Rng(h)
    saved = {}
    if not req.get('real_random'):
        for n, m in [(n, n) for n in ('normal', 'standard_normal', 'randn', 'uniform', 'random', 'random_sample', 'ranf', 'sample', 'rand', 'laplace', 'logistic', 'gumbel', 'seed')] + [('default_rng', 'make'), ('RandomState', 'make')]:
            saved[n] = getattr(np.random, n)
            setattr(np.random, n, getattr(rng, m) if n != 'RandomState' else type('RandomState', (saved[n],), {'__new__': lambda cls, *a, **k: rng.make(*a, **k)}))
    status = 'ok'
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        fn(h, **req['params'])
        if h.fails:
            status = 'fail'
    except PathEnd:
        status = 'pathend'
    except Timeout:
        status = 'timeout'
    except Exception as e:
        status = 'fail'
        tb = traceback.extract_tb(e.__traceback__)
        at = ''
        for f in tb:
            if os.path.realpath(f.filename).startswith(os.path.realpath(REPO)):
                at = ' at %s:%s' % (os.path.relpath(f.filename, REPO), f.lineno)
        h.fails.append('raised %s: %s%s' % (type(e).__name__, str(e)[:300], at))
    finally:
        sys.stdout = out
        for n, f in saved.items():
            setattr(np.random, n, f)
    return {'status': status, 'fails': h.fails[:5], 'obs': h.obs}


def serve(path):
    cd, np = _load()
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    print('ready', flush=True)
    while True:
        c, _ = s.accept()
        if os.fork() == 0:
            s.close()
            child(c, cd, np)
            os._exit(0)
        c.close()


def child(c, cd, np):
    f = c.makefile('rw')

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    for line in f:
        req = json.loads(line)
        try:
            signal.alarm(int(req.get('timeout', 60)))
            r = run_one(req, cd, np)
            signal.alarm(0)
        except Timeout:
            r = {'status': 'timeout', 'fails': [], 'obs': []}
        except BaseException as e:
            r = {'status': 'error', 'fails': [repr(e)], 'obs': []}
        f.write(json.dumps(r) + '\n')
        f.flush()


def main():
    """replay.py FILE: replay a stored counterexample; exit 1 when it fails"""
    if sys.argv[1] == '--serve':
        serve(sys.argv[2])
        return
    cd, np = _load()
    req = json.load(open(sys.argv[1]))
    r = run_one(req, cd, np)
    print(r['status'])
    for m in r['fails']:
        print('  ' + m)
    sys.exit(1 if r['status'] == 'fail' else 0)


if __name__ == '__main__':
    main()
