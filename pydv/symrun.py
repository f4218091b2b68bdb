"""One harness, symbolically: python3-vt -m pydv.symrun C01 h_name solver_ms seconds -> JSON on stdout."""
import json
import sys
import time
import traceback


def main(prop, hname, solver_ms, seconds):
    from . import core, funcs
    from .core import Unsupported, Budget, PathEnd
    sys.setrecursionlimit(6000)
    t0 = time.time()
    e = core.Engine(solver_ms=solver_ms, deadline=t0 + seconds)
    e.reset_run()
    out = {'property': prop, 'harness': hname, 'error': None}
    try:
        from .loader import Loader
        from .symh import SymH
        ld = Loader()
        m = ld.load('contracts.' + prop)
        h = getattr(m, hname)
        H = SymH(ld)
        # modules are imported up front so that a path's decisions do not depend on import order
        for mod in getattr(m, 'MODULES', ()):
            ld.load(mod)
        funcs.start()

        def once():
            try:
                h(H)
            except (Unsupported, Budget, PathEnd):
                raise
            except (core.RestartLoop, core.RestartAll):
                raise
            except Exception as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                if '/pydv/' in tb[-1].filename and not isinstance(ex, (IndexError, KeyError, ValueError, ZeroDivisionError, StopIteration)):
                    # the engine's own model does not cover this: the concrete runs decide
                    raise Unsupported('not modelled: %s: %s' % (type(ex).__name__, str(ex)[:150])) from ex
                where = '; '.join('%s:%d %s' % (f.filename.replace('/repo/', ''), f.lineno, f.name)
                                  for f in tb if '/repo/' in f.filename or '/contracts/' in f.filename)[-300:]
                e.fail_path('no exception', '%s: %s (%s)' % (type(ex).__name__, str(ex)[:200], where))
                return
            e.cover('end of ' + hname)
        e.explore(once)
    except Unsupported as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f for f in tb if '/repo/' in f.filename or '/contracts/' in f.filename]
        w = ' at %s:%d' % (where[-1].filename, where[-1].lineno) if where else ''
        out['error'] = 'unsupported: %s%s' % (str(ex)[:300], w)
        out['trace'] = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb][-14:]
    except Budget as ex:
        out['error'] = 'budget: %s' % ex
    except BaseException as ex:      # the engine itself failed: undecided
        tb = traceback.extract_tb(ex.__traceback__)
        out['error'] = 'engine: %s: %s' % (type(ex).__name__, str(ex)[:300])
        out['trace'] = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb][-14:]
    if e.contracted:
        # a model of an obligation under a loop contract need not be an input: undecided, the concrete runs decide
        for o in e.obls.values():
            if o.status == 'refuted':
                o.status, o.reason, o.model = 'unknown', 'under a loop contract: ' + str(o.reason), None
    out['obligations'] = [dict(name=o.name, status=o.status, backend=sorted(o.backend), time=round(o.time, 3),
                               model=o.model, reason=o.reason, paths=o.paths) for o in e.obls.values()]
    if __import__('os').environ.get('PYDV_FOLDS'):
        for fd in e.folds.values():
            print(fd.name, fd.kind, 'params', fd.params, 'dims', fd.dims, '\n   guard', fd.guard, '\n   body', fd.body, file=sys.stderr)
    out['paths'] = e.paths
    out['complete_paths'] = e.complete_paths
    out['queries'] = e.queries
    out['solver_time'] = round(e.solver_time, 3)
    out['covered'] = sorted(e.reached)
    out['lemmas'] = sorted(e.lemmas_used)
    out['functions'] = sorted(funcs.seen)
    out['wall'] = round(time.time() - t0, 2)
    if out['error'] is None and not out['covered']:
        out['error'] = 'vacuous: no path reaches the end of the harness'
    if out['error'] is None and not out['obligations']:
        out['error'] = 'vacuous: no obligation'
    return out


if __name__ == '__main__':
    # large terms recurse deeply: run on a thread with a big stack
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = {}

    def run():
        res['r'] = main(sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    json.dump(res.get('r') or {'error': 'engine crashed', 'obligations': []}, sys.stdout, default=str)
