#!/usr/bin/env python3
"""check.py <property> quick|thorough : decide one property of /repo's current tree.
check.py --replay <file>              : run the recorded failing input again on the real code.
check.py --baseline <property>        : (development) record which obligations are discharged.

1. every symbolic harness of contracts/<property>.py is executed by pydv over /repo's source as it is now;
   each obligation goes to z3 (then cvc5).
2. the same contract text runs on the real modules with generated inputs (and with the solver's models).
Exit 0: held. Exit 1: a VIOLATION line was printed."""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYDV_REPO', '/repo')
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
REAL = '/opt/venv/bin/python'
CORES = max(2, min(8, os.cpu_count() or 2))

QUICK = dict(solver_ms=4000, sym_s=60, conc_s=15, extra_s=20)
THOROUGH = dict(solver_ms=20000, sym_s=300, conc_s=60, extra_s=60)

TRUSTED = [
    'pydv (this engine: symbolic execution, loop summaries, fold axioms and lemmas)',
    'models of numpy, builtins, datetime and os in pydv/npshim.py and pydv/pyshim.py (not the libraries themselves)',
    'z3 and cvc5',
    'CPython ast; pydv/loader.py rewrites control flow mechanically from the source read on this run',
    'floating point arithmetic is treated as exact real arithmetic (missing values are tracked); integers are unbounded',
]


def real_env():
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
    return env


def spec_of(prop):
    """harness names and options, read from the contract file without importing it"""
    src = open(os.path.join(HERE, 'contracts', prop + '.py')).read()
    tree = ast.parse(src)
    out, info = [], {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'SPEC':
            for el in n.value.elts:
                out.append((el.elts[0].id, ast.literal_eval(el.elts[1])))
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('ASSUMPTIONS', 'TRUSTED', 'RULE'):
            info[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef):
            info['doc:' + n.name] = ast.get_docstring(n) or ''
    return out, info


def run_sym(prop, h, cfg, opts):
    secs = max(opts.get('seconds', 0), cfg['sym_s'])
    t = time.time()
    try:
        p = subprocess.run([VT, '-m', 'pydv.symrun', prop, h, str(cfg['solver_ms']), str(secs)], cwd=HERE,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 60)
        out = p.stdout.decode(errors='replace')
        r = json.loads(out[out.index('{'):])
    except subprocess.TimeoutExpired:
        r = {'error': 'budget: harness did not stop', 'obligations': []}
    except Exception as ex:
        r = {'error': 'engine: no result (%s)' % type(ex).__name__, 'obligations': []}
    r['harness'] = h
    r['wall'] = round(time.time() - t, 2)
    return r


def run_conc(prop, seed, worker, workers, secs, tier, replay=None):
    args = [REAL, '-m', 'pydv.concrun', prop, str(seed), str(worker), str(workers), str(secs), tier]
    tmp = None
    if replay is not None:
        fd, tmp = tempfile.mkstemp(suffix='.json', prefix='pydv_rep_')
        os.write(fd, json.dumps(replay, default=str).encode())
        os.close(fd)
        args.append(tmp)
    env = real_env()
    env['PYTHONPATH'] = REPO + os.pathsep + HERE
    try:
        p = subprocess.run(['nice', '-n', '10'] + args, cwd=tempfile.gettempdir(), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=secs + 240)
        out = p.stdout.decode(errors='replace')
        err = p.stderr.decode(errors='replace')
        for line in out.splitlines()[::-1]:
            if line.startswith('@@RESULT '):
                return json.loads(line[9:])
        return {'crash': 'no result, exit %s: %s' % (p.returncode, err[-800:])}
    except subprocess.TimeoutExpired:
        return {'crash': 'timeout'}
    finally:
        if tmp:
            os.unlink(tmp)


def load_json(path, default):
    try:
        return json.load(open(os.path.join(HERE, path)))
    except FileNotFoundError:
        return default


def known(prop, v):
    """is this violation one of the recorded findings?"""
    for f in load_json('known_findings.json', {'findings': []})['findings']:
        if f.get('status') != 'open' or f['property'] != prop:
            continue
        if f['harness'] == v.get('harness') and f['check'] == v.get('check') and \
                f.get('match', '') in str(v.get('detail', '')):
            return f
    return None


def main(prop, tier, baseline_mode=False):
    t0 = time.time()
    cfg = dict(THOROUGH if tier == 'thorough' else QUICK)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec, info = spec_of(prop)
    sym = [(h, o) for h, o in spec if o.get('sym')]
    conc = [(h, o) for h, o in spec if o.get('concrete', True)]
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    base = load_json('baseline.json', {}).get(prop, {})

    workers = CORES
    serial = any(o.get('serial') for _, o in conc)
    if serial:
        workers = min(workers, 4)
    conc_res, sym_res = [], []
    with ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(run_sym, prop, h, cfg, o) for h, o in sorted(sym, key=lambda x: -x[1].get('cost', 1))]
        fc = [ex.submit(run_conc, prop, seed, w, workers, max([cfg['conc_s']] + [o.get('conc_s', 0) for _, o in conc]), tier) for w in range(workers)] if conc else []
        sym_res = [f.result() for f in fs]
        conc_res = [f.result() for f in fc]

    found, notes = [], []
    for r in conc_res:
        if 'crash' in r:
            notes.append('concrete worker: ' + r['crash'])
        found += r.get('violations', [])
    # solver counterexamples, replayed on the real code
    refuted = []
    opts = dict(spec)
    for r in sym_res:
        for o in r['obligations']:
            if o['status'] == 'refuted':
                refuted.append((r['harness'], o))
                model = o.get('model') or {}
                if opts[r['harness']].get('concrete', True) and model and not baseline_mode and len(refuted) <= 8:
                    rr = run_conc(prop, seed, 0, 1, 1, tier, {'harness': r['harness'], 'inputs': model})
                    for v in rr.get('violations', []):
                        v['from'] = 'solver model of obligation %s' % o['name']
                        found.append(v)
    bl = base.get('discharged', {})
    # an obligation that is discharged on the recorded tree is refuted now: look longer for an input
    regress = [(h, o) for h, o in refuted if o['name'] in bl.get(h, [])]
    if regress and not found and conc and not baseline_mode:
        with ThreadPoolExecutor(CORES) as ex:
            more = [ex.submit(run_conc, prop, seed + 1000, w, workers, cfg['extra_s'], 'thorough') for w in range(workers)]
            for f in more:
                r = f.result()
                conc_res.append(r)
                found += r.get('violations', [])

    fresh, seen_known = [], {}
    for v in found:
        k = known(prop, v)
        if k:
            seen_known[k['id']] = k
        else:
            fresh.append(v)
    # findings recorded as open are shown again by their own recorded input
    lines = []
    for f in load_json('known_findings.json', {'findings': []})['findings']:
        if f['property'] == prop and f.get('status') == 'open':
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))

    obls = [(r['harness'], o) for r in sym_res for o in r['obligations']]
    whole = [r for r in sym_res if not r.get('error')]
    n_obl = len(obls)
    n_ok = sum(1 for r in whole for o in r['obligations'] if o['status'] == 'discharged')
    evals = sum(s['run'] for r in conc_res for s in r.get('runs', {}).values())
    checks = sum(r.get('checks', 0) for r in conc_res)
    viol_lines = []
    if not baseline_mode:
        seen = set()
        for v in fresh:
            key = (v['harness'], v['check'])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(rdir, '%s_%d.json' % (prop, len(seen)))
            json.dump(dict(v, property=prop, how='python3 %s/check.py --replay %s' % (HERE, path)),
                      open(path, 'w'), indent=1, default=str)
            viol_lines.append('VIOLATION property=%s replay=%s' % (prop, path))
            print('%s: %s fails: %s' % (v['harness'], v['check'], str(v.get('detail'))[:300]))
            if len(seen) >= 3:
                break
        if not fresh and regress:
            h, o = regress[0]
            path = os.path.join(rdir, '%s_proof.json' % prop)
            json.dump({'property': prop, 'harness': h, 'obligation': o['name'], 'verifier': o, 'all': [
                (hh, oo['name']) for hh, oo in regress]}, open(path, 'w'), indent=1, default=str)
            print('%s: obligation %s was discharged on the recorded tree and is refuted now' % (h, o['name']))
            viol_lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))

    # per-harness verdict
    verdicts = []
    for h, o in spec:
        r = next((x for x in sym_res if x['harness'] == h), None)
        st = {}
        for x in conc_res:
            s = x.get('runs', {}).get(h)
            if s:
                st['run'] = st.get('run', 0) + s['run']
        v = {'harness': h, 'states': info.get('doc:' + h, '')}
        if r is not None and not r.get('error') and all(q['status'] == 'discharged' for q in r['obligations']):
            v['verdict'] = 'proved'
        elif r is not None:
            v['verdict'] = 'bounded'
            v['why'] = r.get('error') or 'undischarged: ' + ', '.join(
                '%s (%s)' % (q['name'], q['status']) for q in r['obligations'] if q['status'] != 'discharged')[:400]
        else:
            v['verdict'] = 'bounded'
            v['why'] = o.get('why', 'outside the engine\'s reach')
        v['generated_inputs'] = st.get('run', 0)
        if r is not None:
            v.update(obligations=len(r['obligations']), discharged=sum(q['status'] == 'discharged' for q in r['obligations']),
                     paths=r.get('paths'), queries=r.get('queries'), solver_s=r.get('solver_time'), wall_s=r.get('wall'),
                     back_ends=sorted({b for q in r['obligations'] for b in q['backend']}))
        verdicts.append(v)
    proved = [v for v in verdicts if v['verdict'] == 'proved']
    under = sorted({f for r in sym_res if any(v['harness'] == r['harness'] for v in proved)
                    for f in r.get('functions', []) if f.startswith(('spta/', 'experiments/'))})
    ran = sorted({f for r in conc_res for f in r.get('functions', []) if f.startswith(('spta/', 'experiments/'))})
    samples = {}
    for r in conc_res:
        for k, s in r.get('samples', {}).items():
            samples.setdefault(k, s)
    level = 'proof' if proved else 'exploration'
    assumptions = list(info.get('ASSUMPTIONS', []))
    for v in verdicts:
        if v['verdict'] == 'bounded':
            assumptions.append('%s is a bounded check (generated inputs only): %s' % (v['harness'], v.get('why', '')))
    coverage = {
        'obligations': n_obl, 'discharged': n_ok,
        'checker_cmd': 'python3 check.py %s %s (pydv + z3, cvc5)' % (prop, tier),
        'trusted_base': TRUSTED + list(info.get('TRUSTED', [])),
        'contracts': verdicts,
        'functions_under_contract': under,
        'functions_only_bounded': [f for f in ran if f not in under],
        'solver_s': round(sum(r.get('solver_time', 0) or 0 for r in sym_res), 3),
        'lemmas_used': sorted({x for r in sym_res for x in r.get('lemmas', [])}),
        'evaluations': evals,
        'distinct_nontrivial': sum(r.get('distinct', 0) for r in conc_res),
        'runtime_contract_checks': checks,
        'rule': info.get('RULE', 'random small grids, series and parameters per harness (ties, integers, dyadic and '
                                 'gaussian values); a case is non-trivial when its preconditions hold and its inputs '
                                 'differ from every other case of the same worker'),
        'samples': [{'harness': k, 'inputs': s} for k, s in sorted(samples.items())][:8],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol_lines)}
    if notes:
        ev['coverage']['notes'] = notes
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)

    if baseline_mode:
        b = load_json('baseline.json', {})
        b[prop] = {'discharged': {r['harness']: sorted(o['name'] for o in r['obligations'] if o['status'] == 'discharged')
                                  for r in sym_res}}
        json.dump(b, open(os.path.join(HERE, 'baseline.json'), 'w'), indent=1, sort_keys=True)

    for v in verdicts:
        print('%-9s %s  (%s obligations, %d generated inputs)%s' % (
            v['verdict'], v['harness'], v.get('obligations', 0), v['generated_inputs'],
            '' if v['verdict'] == 'proved' else ' -- ' + v.get('why', '')[:200]))
    print('%s: %d/%d obligations discharged, %d evaluations, %.1f s' % (prop, n_ok, n_obl, evals, time.time() - t0))
    for ln in notes:
        print('note: ' + ln)
    for ln in lines:
        print(ln)
    for ln in viol_lines:
        print(ln)
    if viol_lines:
        return 1
    if conc and evals == 0 or not conc and n_ok == 0:
        # nothing was decided: the code under test cannot be exercised at all
        path = os.path.join(rdir, '%s_none.json' % prop)
        json.dump({'property': prop, 'notes': notes, 'sym': sym_res}, open(path, 'w'), indent=1, default=str)
        if notes:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            return 1
        return 2
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--replay':
        rep = json.load(open(a[1]))
        r = run_conc(rep['property'], 1, 0, 1, 1, 'quick', rep)
        print(json.dumps(r.get('violations') or r, indent=1))
        sys.exit(1 if r.get('violations') else 0)
    if a[0] == '--baseline':
        for p in a[1:]:
            main(p, 'quick', True)
        sys.exit(0)
    sys.exit(main(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))
