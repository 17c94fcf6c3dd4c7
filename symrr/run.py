"""Driver: explores the harnesses of one property, replays counterexamples on the real code,
writes the evidence file."""
import argparse
import contextlib
import importlib
import io
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time
import traceback
import types
import warnings
import resource

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
import numpy as np  # noqa: E402  (the project's numpy; the solver's environment goes last on the path)
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from symrr import engine as E  # noqa: E402
from symrr import loader  # noqa: E402
from symrr.ctx import AssumptionFailed, ConcCtx, ProbeCtx, SymCtx  # noqa: E402

warnings.simplefilter('ignore')


def find_check(pid):
    for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            return importlib.import_module('symrr.checks.' + f[:-3])
    raise SystemExit(f'no check for {pid}')


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with np.errstate(all='ignore'):
            yield
    finally:
        sys.stdout, sys.stderr = so, se


def run_concrete(fn, params, values, tier, ctx=None):
    """-> (status, failures, ctx): status ok / failed / exception / assumption"""
    if ctx is None:
        ctx = ConcCtx(values, params, tier)
    try:
        with quiet():
            fn(ctx, **params)
    except AssumptionFailed:
        # what failed before was refuted without the later assumptions
        if ctx.failures and not isinstance(ctx, ProbeCtx):
            return 'failed', ctx.failures, ctx
        return 'assumption', [], ctx
    except (Exception, SystemExit) as e:
        if getattr(fn, 'expected_exceptions', None) and isinstance(e, fn.expected_exceptions):
            return 'ok', [], ctx
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(f.filename.startswith(loader.REPO_PY) for f in tb)
        where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb][-3:]
        return 'exception', [('exception', f'{type(e).__name__}: {e} at {where} in_repo={inrepo}')], ctx
    finally:
        ctx.done()
    return ('failed' if ctx.failures else 'ok'), ctx.failures, ctx


def _funcs_monitor():
    seen = set()
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'symrr')
    except ValueError:
        return seen, lambda: None

    def start(code, off):
        if code.co_filename.startswith((loader.REPO_PY, os.path.dirname(loader.REPO_PY) + '/bin/')):
            seen.add(os.path.relpath(code.co_filename, loader.REPO_PY) + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)

    def stop():
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
    return seen, stop


def run_config(task):
    pid, idx, tier, deadline, seed = task
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    mod = find_check(pid)
    cfg = mod.configs(tier)[idx]
    name, fn, params = cfg['name'], cfg['fn'], cfg.get('params', {})
    t0 = time.time()
    out = dict(name=name, params=repr(params), bounds=cfg.get('bounds', ''), status='ok', cex=[], error=None)
    eng = E.Engine(deadline=deadline, seed=seed, nonlinear=cfg.get('nonlinear', False),
                   max_paths=cfg.get('max_paths', 200000),
                   prove_timeout_ms=cfg.get('prove_timeout_ms', 20000),
                   branch_timeout_ms=cfg.get('branch_timeout_ms', 3000))
    covers, samples = set(), []
    valid = dict(n=0, mismatch=0, skipped=0, mism=[])
    nvalid = cfg.get('validate', 6)
    seen, stop = _funcs_monitor()

    def body(eng):
        ctx = SymCtx(eng, params, tier)
        eng.ctx = ctx
        try:
            with quiet():
                fn(ctx, **params)
        except E.EngineSignal:
            raise
        except (Exception, SystemExit) as e:
            if eng.poison is not None:
                raise eng.poison
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in tb[::-1][:6])
            m = eng.nice_model([])
            if m is None:
                raise E.PathAbort('infeasible at exception')
            raise E.Counterexample('exception', m, f'{type(e).__name__}: {e} at {where}')
        finally:
            ctx.done()
        covers.update(ctx._covers)

    def path_end(eng):
        k = eng.stats['paths']
        if valid['n'] + valid['skipped'] >= nvalid or (k > 3 and k % cfg.get('validate_every', 7)):
            return
        m = eng.nice_model([], budget=1.0)
        if m is None:
            valid['skipped'] += 1
            return
        st, fails, cc = run_concrete(fn, params, m, tier)
        if st == 'assumption':
            valid['skipped'] += 1
            return
        valid['n'] += 1
        if st != 'ok':
            valid['mismatch'] += 1
            if len(valid['mism']) < 2:
                valid['mism'].append(dict(values=m, fails=fails[:2]))
        if len(samples) < 2:
            samples.append(dict(config=name, values=m))

    try:
        cex = eng.explore(body, path_end if nvalid else None)
        out['cex'] = [dict(label=c.label, values=c.model, detail=str(c.detail)[:500]) for c in cex]
        # a path model that fails on the real code is a counterexample too
        out['cex'] += [dict(label=m['fails'][0][0], values=m['values'], detail='path model: ' + str(m['fails'][0][1])[:400])
                       for m in valid['mism']]
        if out['cex']:
            out['status'] = 'cex'
        else:
            missing = [c for c in cfg.get('cover', []) if c not in covers]
            if missing:
                out['status'] = 'vacuous'
                out['error'] = f'cover points never reached: {missing}'
            elif eng.stats['checks'] == 0:
                out['status'] = 'vacuous'
                out['error'] = 'no assertion reached'
    except E.EngineSignal as e:
        out['status'] = 'inconclusive'
        out['cex'] = [dict(label=m['fails'][0][0], values=m['values'], detail='path model: ' + str(m['fails'][0][1])[:400])
                      for m in valid['mism']]
        tb = traceback.extract_tb(e.__traceback__)
        out['error'] = f'{type(e).__name__}: {e} @ ' + ' <- '.join(
            f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[::-1][:7])
    except MemoryError:
        out['status'] = 'inconclusive'
        out['error'] = 'memory limit'
    except BaseException as e:
        out['status'] = 'inconclusive'
        out['error'] = 'internal: ' + traceback.format_exc()[-800:]
    stop()
    out.update(stats=dict(eng.stats), solver_s=round(eng.solver_s, 3), wall=round(time.time() - t0, 2),
               labels=eng.labels, covers=sorted(covers), functions=sorted(seen), samples=samples, valid=valid,
               sources=loader.SOURCES)
    return out


def probe_config(task):
    """a harness the solver could not decide on this source: look for a failing input on the real code only"""
    pid, idx, tier, seconds, seed = task
    mod = find_check(pid)
    cfg = mod.configs(tier)[idx]
    rng = random.Random(seed * 1000 + idx)
    end, n = time.time() + seconds, 0
    while time.time() < end and n < 400:
        ctx = ProbeCtx(rng, cfg.get('params', {}), tier)
        n += 1
        st, fails, _ = run_concrete(cfg['fn'], cfg.get('params', {}), ctx.values, tier, ctx)
        if st in ('failed', 'exception'):
            return cfg['name'], n, dict(values=ctx.values, label=fails[0][0], detail=str(fails[0][1])[:500])
    return cfg['name'], n, None


def replay_file(path):
    d = json.load(open(path))
    mod = find_check(d['property'])
    for tier in (d.get('tier', 'quick'), 'thorough', 'quick'):
        for cfg in mod.configs(tier):
            if cfg['name'] == d['config']:
                return run_concrete(cfg['fn'], cfg.get('params', {}), d['values'], tier)
    raise SystemExit('config not found')


def clean_env():
    env = dict(os.environ)
    env['PYTHONPATH'] = loader.REPO_PY
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    env.pop('RR_TEMPLATE_DIR', None)
    return env


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--probe', action='store_true', help='only run the failing-input search of undecided harnesses')
    ap.add_argument('--verbose', '-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    mod = find_check(a.pid)
    pid = mod.PROPERTY
    budget = a.budget or (780 if tier == 'quick' else getattr(mod, 'THOROUGH_BUDGET', 3000))
    cfgs = mod.configs(tier)
    idxs = [i for i, c in enumerate(cfgs) if not a.only or a.only in c['name']]
    deadline = t0 + budget
    if a.probe:
        with multiprocessing.get_context('fork').Pool(a.jobs, maxtasksperchild=1) as pool:
            for name, n, c in pool.imap_unordered(probe_config, [(pid, i, tier, 20, seed) for i in idxs]):
                if c or a.verbose:
                    print(pid, name, n, c and (c['label'], c['detail'][:300], str(c['values'])[:300]))
        return 0
    tasks = [(pid, i, tier, deadline, seed) for i in idxs]
    tasks.sort(key=lambda t: -cfgs[t[1]].get('weight', 1))
    results = []
    mpctx = multiprocessing.get_context('fork')
    with mpctx.Pool(min(a.jobs, max(1, len(tasks))), maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(run_config, tasks):
            results.append(r)
            if a.verbose:
                print(f"[{r['name']}] {r['status']} paths={r['stats'].get('paths')} checks={r['stats'].get('checks')} "
                      f"q={r['stats'].get('queries')} solver={r['solver_s']}s wall={r['wall']}s "
                      f"valid={r['valid']['n']}/{r['valid']['mismatch']} {r['error'] or ''}", flush=True)
                for c in r['cex']:
                    print('   CEX', c['label'], c['detail'][:400], json.dumps(c['values'])[:600])
                for m in r['valid']['mism']:
                    print('   MISMATCH', m['fails'], json.dumps(m['values'])[:600])
    # extra, non-path work of a check (e.g. table queries)
    violations, errors, undecided = [], [], []
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(pid)
    known_hit = []
    index = {c['name']: i for i, c in enumerate(cfgs)}

    def confirm(r, cexs, tag=''):
            for n, c in enumerate(cexs):
                path = os.path.join(rdir, f"{pid}_{r['name']}_{tag}{n}.json".replace('/', '_').replace(' ', '_'))
                json.dump(dict(property=pid, config=r['name'], tier=tier, values=c['values'], label=c['label'],
                               detail=c['detail']), open(path, 'w'), indent=1)
                try:
                    p = subprocess.run([sys.executable, os.path.join(HERE, 'replay.py'), path], env=clean_env(),
                                       capture_output=True, text=True, timeout=max(20.0, min(180.0, 860 - (time.time() - t0))))
                except subprocess.TimeoutExpired:
                    continue
                if p.returncode == 1:
                    line = [x for x in p.stdout.splitlines() if x.startswith('REPRODUCED')]
                    what = line[0][11:] if line else c['label']
                    kf = [k for k in known if k['config'] == r['name'] and k['label'] in what]
                    if kf:
                        known_hit.append(kf[0])
                    else:
                        violations.append((path, r['name'], c['label'], what))
                    return True
                elif a.verbose:
                    print('   replay did not reproduce:', p.stdout[-300:], p.stderr[-500:])
            return False
    retry = []
    for r in results:
        if r['cex'] and confirm(r, r['cex']):
            continue
        if r['cex']:
            retry.append((r, f"counterexample to '{r['cex'][0]['label']}' did not reproduce on the real "
                          f"code ({r['cex'][0]['detail'][:300]})"))
        elif r['status'] != 'ok':
            retry.append((r, f"{r['status']}: {r['error']}"))
    if retry:
        # not decided by the solver (construct outside the encoding, time): only a failing input can be reported
        left = max(10.0, min(60.0, 840 - (time.time() - t0)))
        per = max(2.0, left * min(a.jobs, len(retry)) / len(retry))
        by = {r['name']: (r, e) for r, e in retry}
        with mpctx.Pool(min(a.jobs, len(retry)), maxtasksperchild=1) as pool:
            for name, n, c in pool.imap_unordered(probe_config, [(pid, index[r['name']], tier, per, seed) for r, e in retry]):
                r, e = by[name]
                if c is None or not confirm(r, [c], 'probe'):
                    undecided.append(name)
                    errors.append(f'{name}: not decided: {e} (no failing input among {n} tried)')
                    r['status'] = 'undecided'
    # an undecided harness is reported and not counted as explored; too many of them is no answer
    strict = bool(os.environ.get('VERIF_STRICT')) or len(undecided) * 2 > len(results)
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    labels = {}
    for r in results:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r['functions']))
    sources = {}
    for r in results:
        sources.update(r['sources'])
    cov = dict(
        states=tot.get('paths', 0),
        transitions=tot.get('branches', 0),
        traces_validated_against_impl=sum(r['valid']['n'] for r in results),
        samples=[s for r in results for s in r['samples']][:6] or [dict(note='no path completed')],
        rule='states = feasible execution paths of the real code explored to the end; transitions = symbolic branch '
             'decisions taken on them; every assertion on every path is a solver query over all values of the symbolic '
             'inputs on that path; a path model is then executed on the unshimmed code (traces validated)',
        harnesses=[dict(name=r['name'], bounds=r['bounds'], status=r['status'], paths=r['stats'].get('paths', 0),
                        assertions=r['stats'].get('checks', 0), solver_s=r['solver_s'], wall_s=r['wall'],
                        cover_points_reached=r['covers'], validation_mismatches=r['valid']['mismatch'])
                   for r in sorted(results, key=lambda r: r['name'])],
        functions_encoded=funcs,
        source_digests=sources,
        solver=dict(name='z3', version=z3.get_version_string(), queries=tot.get('queries', 0), sat=tot.get('sat', 0),
                    unsat=tot.get('unsat', 0), unknown=tot.get('unknown', 0),
                    seconds=round(sum(r['solver_s'] for r in results), 2)),
        assertions=dict(checked=tot.get('checks', 0), discharged_by_constant_folding=tot.get('trivially_true', 0),
                        discharged_by_exact_normal_form=tot.get('normal_form', 0), by_label=labels),
        exhaustive=not errors and not violations,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'), coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'floating-point values are treated as exact reals; nan and inf only as concrete values',
                  'everything outside the stated harness bounds is outside the claim'],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    for k in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for path, cfg, label, what in violations:
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  harness={cfg} assertion={label}: {what[:600]}')
    for e in errors:
        print('ERROR' if strict else 'UNDECIDED', e)
    print(f"{pid} {tier}: harnesses={len(results)} paths={tot.get('paths', 0)} assertions={tot.get('checks', 0)} "
          f"queries={tot.get('queries', 0)} solver={cov['solver']['seconds']}s wall={ev['wall_s']}s "
          f"validated={cov['traces_validated_against_impl']} "
          f"mismatch={sum(r['valid']['mismatch'] for r in results)} violations={len(violations)} errors={len(errors)}")
    if violations:
        return 1
    return 2 if errors and strict else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
