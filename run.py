#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--case SUBSTR] [--debug]

Decides one property: symbolically executes the current source of /repo for every case of the property's
harness module, discharges the obligations with the solver, replays every counterexample on the real code.
Exit 0: held on everything explored; exit 1: confirmed violation; exit 2: nothing could be decided.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import select
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
VENV = '/opt/venv/bin/python'


class Replay:
    """connection to the replay server"""
    def __init__(self, path):
        self.path = path
        self.f = None

    def _open(self):
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.path)
        self.s = s
        self.f = s.makefile('rw')

    def __call__(self, req):
        from engine.explore import Deadline
        try:
            if self.f is None:
                self._open()
            self.f.write(json.dumps(req) + '\n')
            self.f.flush()
            line = self.f.readline()
            if not line:
                raise OSError('replay server closed the connection')
            return json.loads(line)
        except Deadline:
            self.f = None
            raise
        except (OSError, ValueError) as e:
            self.f = None
            return {'status': 'error', 'fails': [repr(e)], 'obs': []}


def start_server(scratch):
    path = os.path.join(scratch, 'replay.sock')
    env = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR=scratch, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    p = subprocess.Popen([VENV, '-B', os.path.join(ROOT, 'engine', 'replay.py'), '--serve', path], env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch, text=True)
    return p, path


def worker(conn, module, case, opts, sockpath):
    os.environ['OMP_NUM_THREADS'] = '1'
    try:
        resource.setrlimit(resource.RLIMIT_AS, (opts.get('mem_gb', 10) << 30,) * 2)
    except (ValueError, OSError):
        pass
    try:
        from engine.loader import Package
        from engine import explore
        pkg = Package()
        pkg.load('CommDspy')
        r = explore.explore(pkg, module, case['fn'], case['params'], opts, Replay(sockpath), None)
        r['sources'] = pkg.sources
    except BaseException as e:
        r = dict(case=case['name'], decided=False, violation=None, notes=['worker: %s' % ''.join(traceback.format_exception(e))[-1500:]],
                 paths=0, ended=0, obligations=0, witnesses=0, functions=[], solver={}, wall=0, error=True)
    conn.send(r)
    conn.close()
    os._exit(0)


def load_probe(scratch):
    """does the package import in the symbolic loader at all"""
    from engine.loader import Package
    p = Package()
    p.load('CommDspy')
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true', help='go on after a violation (for development)')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    module = args.prop.lower()
    t0 = time.time()
    m = importlib.import_module('props.' + module)
    cases = m.cases(args.tier)
    if args.case:
        cases = [c for c in cases if args.case in c['name']]
    budget = getattr(m, 'BUDGET', {}).get(args.tier, 600 if args.tier == 'quick' else 780)
    scratch = tempfile.mkdtemp(prefix='vt_')
    results, violation, last = [], None, None
    proc = None
    known_lines = []
    try:
        proc, sock = start_server(scratch)
        import z3  # noqa: loaded once before forking
        import engine.explore  # noqa
        load_err = None
        try:
            load_probe(scratch)
        except Exception as e:
            load_err = 'the package cannot be loaded symbolically: %r' % (e,)
        line = proc.stdout.readline()
        if line.strip() != 'ready':
            print('ERROR: the package does not import: %s' % proc.stderr.read()[-2000:])
            sys.exit(2)
        ctx = mp.get_context('fork')
        running = {}
        todo = list(cases)
        known = load_known(args.prop)
        while todo or running:
            while todo and len(running) < args.jobs and violation is None and time.time() - t0 < budget:
                c = todo.pop(0)
                opts = dict(c.get('opts', {}))
                opts.setdefault('deadline', getattr(m, 'DEADLINE', {}).get(args.tier, 200 if args.tier == 'quick' else 600))
                opts['deadline'] = max(5, min(opts['deadline'], budget - (time.time() - t0)))
                opts['name'], opts['seed'], opts['debug'] = c['name'], seed, args.debug
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=worker, args=(b, module, c, opts, sock), daemon=True)
                p.start()
                b.close()
                running[a] = (p, c, time.time() + opts['deadline'] + 30)
            if violation is not None or time.time() - t0 >= budget:
                if todo:
                    if violation is None:
                        for c in todo:
                            results.append(blank(c, 'not started: time budget'))
                    todo = []
                if violation is not None:
                    for a, (p, c, dl) in running.items():
                        p.kill()
                    running = {}
                    break
            if not running:
                continue
            ready = mp.connection.wait(list(running), timeout=1.0)
            now = time.time()
            for a in list(running):
                p, c, dl = running[a]
                if a in ready:
                    try:
                        r = a.recv()
                    except (EOFError, OSError):
                        r = blank(c, 'worker died')
                    p.join(5)
                    del running[a]
                elif now > dl:
                    p.kill()
                    r = blank(c, 'hard deadline')
                    del running[a]
                else:
                    continue
                if r.get('violation'):
                    k = match_known(known, c, r['violation'])
                    if k:
                        known_lines.append(k)
                        r['known'] = k
                    elif args.all:
                        print('VIOLATED %s: %s' % (c['name'], r['violation']['fails'][:2]), flush=True)
                        last = (c, r)
                    else:
                        violation = (c, r)
                results.append(r)
                if args.v or args.debug:
                    print('%-50s %s paths=%d obl=%d wit=%d q=%s t=%.1f %s' % (
                        r['case'], 'VIOLATED' if r.get('violation') else 'ok' if r['decided'] else 'INCONCLUSIVE', r['paths'], r['obligations'], r['witnesses'],
                        r.get('solver', {}).get('queries'), r.get('wall', 0), '; '.join(r['notes'])), flush=True)
                    if r.get('fallbacks'):
                        print('      case-split library calls:', r['fallbacks'])
                    if r.get('violation'):
                        print('      ', r['violation']['fails'], r['violation']['params'])
    finally:
        if proc is not None:
            proc.kill()
            proc.wait()
        shutil.rmtree(scratch, ignore_errors=True)
    violation = violation or last
    rc = report(args, m, seed, t0, cases, results, violation, known_lines)
    sys.stdout.flush()
    sys.exit(rc)


def blank(c, why):
    return dict(case=c['name'], decided=False, violation=None, notes=[why], paths=0, ended=0, obligations=0, witnesses=0,
                functions=[], solver={}, wall=0)


# ------------------------------------------------------------------ known findings
def load_known(prop):
    f = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k['property'] == prop]


def match_known(known, case, v):
    for k in known:
        if k['case'] == case['name'] and any(k['message'] in x for x in v['fails']):
            return k['what']
    return None


# ------------------------------------------------------------------ report
def report(args, m, seed, t0, cases, results, violation, known_lines):
    undecided = [r for r in results if not r['decided'] and not r.get('violation')]
    decided = [r for r in results if r['decided'] and not r.get('violation')]
    agg = dict(queries=0, sat=0, unsat=0, unknown=0, normal_form=0)
    st = 0.0
    for r in results:
        s = r.get('solver') or {}
        for k in agg:
            agg[k] += s.get(k, 0)
        st += s.get('solver_s', 0)
    funcs = sorted(set(f for r in results for f in r['functions']))
    sources = {}
    for r in results:
        sources.update(r.get('sources') or {})
    vio = []
    if violation:
        c, r = violation
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', '%s-%s.json' % (args.prop, ''.join(ch if ch.isalnum() else '_' for ch in c['name'])[:80]))
        json.dump(dict(r['violation'], property=args.prop, case=c['name'],
                       replay='PYTHONPATH=/repo /opt/venv/bin/python -B %s/engine/replay.py %s' % (ROOT, path)), open(path, 'w'), indent=1)
        vio.append(dict(case=c['name'], fails=r['violation']['fails'], replay=path, input=trim(r['violation']['asg']), params=r['violation']['params']))
        for f in r['violation']['fails'][:3]:
            print('  %s: %s' % (c['name'], f))
        print('VIOLATION property=%s replay=%s' % (args.prop, path))
    for k in sorted(set(known_lines)):
        print('KNOWN-FINDING: property=%s %s' % (args.prop, k))
    for r in undecided:
        print('INCONCLUSIVE: %s %s: %s' % (args.prop, r['case'], '; '.join(r['notes'])[:400]))
    wall = time.time() - t0
    ev = dict(
        property=args.prop, tier=args.tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=vio,
        assumptions=([m.ASSUMPTIONS] if getattr(m, 'ASSUMPTIONS', '') else []) + ['numpy/scipy calls follow the models of engine/ (each case replays at least one solver-produced input on the real code and compares every observed value)',
                                                             'real-valued quantities are encoded as exact reals over the stated ranges; the comparison with the float computation is within the stated tolerance'],
        coverage=dict(
            functions_encoded=funcs, source_sha256=sources, bounds=getattr(m, 'BOUNDS', ''), outside=getattr(m, 'OUTSIDE', ''),
            queries_discharged=agg, solver='z3 %s' % _z3v(), solver_time_s=round(st, 2),
            cases_total=len(cases), cases_decided=len(decided), cases_inconclusive=[dict(case=r['case'], notes=r['notes']) for r in undecided],
            paths=sum(r['paths'] for r in results), paths_outside_assumptions=sum(r['ended'] for r in results),
            obligations=sum(r['obligations'] for r in results), reachability_witnesses=sum(r['witnesses'] for r in results),
            case_split_calls=sorted(set(f for r in results for f in r.get('fallbacks', []))),
            modelled_calls=sorted(set(f for r in results for f in r.get('models', []))),
            known_findings=sorted(set(known_lines)),
            cases=[dict(case=r['case'], decided=r['decided'], paths=r['paths'], obligations=r['obligations'], witnesses=r['witnesses'],
                        queries=(r.get('solver') or {}).get('queries'), wall_s=r.get('wall')) for r in results]))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', args.prop + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d cases decided, %d paths, %d obligations, %d queries (%d unsat), solver %.1fs, wall %.1fs' % (
        args.prop, args.tier, len(decided), len(cases), ev['coverage']['paths'], ev['coverage']['obligations'], agg['queries'], agg['unsat'], st, wall))
    if violation:
        return 1
    if not decided and not known_lines:
        print('ERROR: no case could be decided')
        return 2
    return 0


def trim(asg):
    return dict(list(asg.items())[:400])


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    import multiprocessing.connection
    main()
