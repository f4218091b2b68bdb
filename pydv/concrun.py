"""Harnesses of one property on the real code with generated inputs:
python -m pydv.concrun C01 seed worker workers seconds tier [replayfile] -> JSON on stdout."""
import importlib
import io
import json
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def run_one(h, H, limit, workdir):
    """-> None | 'skip' | violation dict"""
    from .conch import Violation, Skip
    signal.setitimer(signal.ITIMER_REAL, limit)
    os.chdir(workdir)
    try:
        h(H)
        return None
    except Skip:
        return 'skip'
    except Violation as v:
        return {'check': v.name, 'detail': str(v.detail)}
    except Hang:
        return {'check': 'terminates', 'detail': 'no result within %g s' % limit}
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as ex:
        if isinstance(ex, SystemExit) and False:
            raise
        tb = traceback.format_exc().strip().splitlines()
        return {'check': 'no exception', 'detail': '%s: %s' % (type(ex).__name__, ex), 'trace': tb[-12:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main(prop, seed, worker, workers, seconds, tier, replay=None):
    from . import funcs
    from .conch import ConcH
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGALRM, on_alarm)
    scratch = tempfile.mkdtemp(prefix='pydv_%s_' % prop)
    cwd = os.getcwd()
    os.chdir(scratch)
    out = {'runs': {}, 'violations': [], 'functions': [], 'samples': {}, 'checks': 0, 'names': [], 'distinct': 0}
    try:
        sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        real_out = sys.stdout
        sys.stdout = io.StringIO()
        m = importlib.import_module('contracts.' + prop)
        for mod in getattr(m, 'MODULES', ()):
            try:
                importlib.import_module(mod)
            except Exception as ex:
                out['violations'].append({'harness': '(import)', 'check': 'module %s can be imported' % mod,
                                          'detail': '%s: %s' % (type(ex).__name__, ex), 'inputs': {}})
        funcs.start()
        spec = [(f, o) for f, o in m.SPEC if o.get('concrete', True)]
        limit = 40
        n = 0
        def go(f, inputs, rng):
            nonlocal n
            n += 1
            sys.stdout = io.StringIO()
            d = os.path.join(scratch, 'w%d' % n)
            os.mkdir(d)
            H = ConcH(rng, inputs, tier)
            r = run_one(f, H, limit, d)
            os.chdir(scratch)
            shutil.rmtree(d, ignore_errors=True)
            return H, r
        if replay is not None:
            for f, o in m.SPEC:
                if f.__name__ == replay['harness']:
                    H, r = go(f, replay['inputs'], random.Random(0))
                    if r not in (None, 'skip'):
                        out['violations'].append(dict(r, harness=f.__name__, inputs=H.inputs))
                    out['replayed'] = r is None or r != 'skip'
            sys.stdout = real_out
            return out
        if out['violations']:
            sys.stdout = real_out
            return out
        t_end = time.time() + seconds
        rounds = 0
        distinct = set()
        names = set()
        failed = set()
        caps = {f.__name__: o.get('runs', 400) * (10 if tier == 'thorough' else 1) for f, o in spec}
        done = {f.__name__: 0 for f, o in spec}
        spent = {f.__name__: 0.0 for f, o in spec}
        while spec:
            # every harness gets the same share of the time (and at least its minimum of runs)
            late = time.time() > t_end
            able = [(f, o) for f, o in spec if f.__name__ not in failed and done[f.__name__] < caps[f.__name__]
                    and not (late and done[f.__name__] >= o.get('min', 3))]
            if not able:
                break
            f, o = min(able, key=lambda q: (done[q[0].__name__] >= q[1].get('min', 3), spent[q[0].__name__]))
            nm = f.__name__
            done[nm] += 1
            case = done[nm] * workers + worker
            t_run = time.time()
            H, r = go(f, None, random.Random('%s/%s/%d' % (seed, nm, case)))
            spent[nm] += time.time() - t_run
            st = out['runs'].setdefault(nm, {'run': 0, 'skipped': 0})
            if r == 'skip':
                st['skipped'] += 1
                continue
            st['run'] += 1
            out['checks'] += H.checks
            names |= {nm + ': ' + x for x in H.names}
            key = json.dumps(H.inputs, sort_keys=True, default=str)
            if key not in distinct:
                distinct.add(key)
                if len(key) < 900:
                    out['samples'].setdefault(nm, json.loads(key))
            if r is not None:
                failed.add(nm)
                out['violations'].append(dict(r, harness=nm, inputs=H.inputs, case=case))
        out['distinct'] = len(distinct)
        out['names'] = sorted(names)
        out['functions'] = sorted(funcs.seen)
        sys.stdout = real_out
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return out


if __name__ == '__main__':
    a = sys.argv
    rep = json.load(open(a[7])) if len(a) > 7 else None
    stdout = sys.stdout
    res = main(a[1], int(a[2]), int(a[3]), int(a[4]), float(a[5]), a[6], rep)
    sys.stdout = stdout
    s = json.dumps(res, default=str)
    sys.stdout.write('\n@@RESULT ' + s + '\n')
    sys.stdout.flush()
    os._exit(0)
