#!/usr/bin/env python3
"""Decide one property: model checking, then conformance of the real code.

usage: check.py PROP [--tier quick|thorough] [--seed N] [--replay FILE]

 1. TLC explores the models of the specification that carry the property.
 2. TLC generates request structures and call histories from the specification.
 3. The histories and structures are executed on the code in /repo; every call
    and its answer is recorded (harness/drive.py).
 4. TLC validates the recorded traces against the specification (WeacTrace.tla):
    the trace must be a behaviour, and all clauses of the property must hold.

exit 0: held; 1: violated (VIOLATION line); 2: the machinery failed.
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('WEAC_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
CORES = 8

# property -> models explored exhaustively [quick], [additionally thorough]
LIFE = (['WeacMC'], ['WeacMC2'])
GEOM = (['LayoutMC'], ['LayoutMC2'])
MECH = (['SnowMC'], ['SnowMC2'])
BOTH = (['LayoutMC', 'SnowMC'], ['LayoutMC2', 'SnowMC2'])
MODELS = {
    'C01': LIFE, 'C02': LIFE, 'C03': MECH, 'C04': MECH, 'C05': GEOM, 'C06': MECH, 'C07': GEOM,
    'C08': MECH, 'C09': BOTH, 'C10': GEOM, 'C11': MECH, 'C12': BOTH, 'C13': GEOM, 'C14': MECH,
    'C16': (['WeacMC', 'SnowMC'], ['WeacMC2', 'SnowMC2']),
    'C17': (['WeacMC'], ['WeacMC2']), 'C18': LIFE, 'C19': MECH, 'C21': MECH,
}
# property -> {family: number of scenarios} for the quick tier
FAMILIES = {
    'C01': {'history': 144, 'history_churn': 72, 'history_churn_td': 64},
    'C02': {'history_rep': 120, 'solve_contact_rep': 32, 'raster_rep': 96, 'gdif_rep': 24,
            'ginc_rep': 16, 'principal': 8, 'springs': 16, 'solve_single': 16},
    'C03': {'stiffness': 1200},
    'C04': {'loads': 720, 'solve_saw': 72, 'solve_skier': 72, 'solve_pattern': 120},
    'C05': {'segments': 360, 'segments_contact': 480},
    'C06': {'solve_saw': 288, 'solve_pattern': 288, 'solve_skier': 144, 'solve_contact': 192,
            'solve_single': 48},
    'C07': {'solve_saw': 192, 'solve_pattern': 480, 'solve_skier': 192, 'solve_contact': 144},
    'C08': {'solve_saw': 360, 'solve_pattern': 288, 'solve_skier': 192, 'solve_contact': 192,
            'solve_single': 72},
    'C09': {'mirror': 480, 'split': 480, 'linear': 360},
    'C10': {'raster': 720},
    'C11': {'fields': 480},
    'C12': {'gdif': 960},
    'C13': {'ginc': 288, 'ginc_mean': 144},
    'C14': {'stress': 288, 'stress_free': 144},
    'C15': {'principal': 240},
    'C16': {'touchdown': 160, 'touchdown_edge': 1, 'history_td': 40, 'history_churn_td': 64},
    'C17': {'springs': 80, 'solve_contact_BC': 128, 'history_td': 32},
    'C18': {'rejections': 128, 'valid': 80, 'history_rej': 40, 'solve_single': 24},
    'C19': {'tools': 192, 'tool_touchdown': 128},
    'C21': {'potential': 128},
    'C20': {'plots': 80, 'plots_deformed': 80, 'plots_given': 64, 'plots_reject': 16},
}
# development only (mutation runs): every clause on a few scenarios of every family
FAMILIES['ALL'] = {}
for _p, _f in list(FAMILIES.items()):
    for _k, _n in _f.items():
        FAMILIES['ALL'][_k] = max(FAMILIES['ALL'].get(_k, 0), _n)
HISTS = {'history': 'WeacGen', 'history_rep': 'WeacGen', 'history_td': 'WeacGenTd',
         'history_rej': 'WeacGenRej', 'history_churn': 'WeacGenChurn',
         'history_churn_td': 'WeacGenChurnTd'}
DEEP = 12           # thorough: that many times the scenarios


class Trouble(Exception):
    pass


def classes():
    """Operator overrides for TLC, compiled when missing or stale."""
    src = os.path.join(SPEC, 'java', 'Reals64.java')
    dst = os.path.join(ROOT, 'build', 'classes')
    out = os.path.join(dst, 'Reals64.class')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(dst))
        subprocess.run(['javac', '-cp', TLA + '/tla2tools.jar', '-d', tmp, src], check=True)
        os.makedirs(dst, exist_ok=True)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(dst, f))
        os.rmdir(tmp)
    return dst


def tlc(work, cfg, module, workers=1, mem='2g', env=None, extra=(), timeout=7200):
    meta = tempfile.mkdtemp(prefix='meta', dir=work)
    gc = '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC'
    cmd = ['java', gc, '-Djava.io.tmpdir=' + work, '-Xmx' + mem, '-Xss64m', '-XX:TieredStopAtLevel=4', '-cp',
           ':'.join([classes(), TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar']),
           'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
           *extra, '-config', cfg + '.cfg', module + '.tla']
    r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def explore(work, model, workers):
    """Exhaustive exploration of a model; returns (states, transitions)."""
    module = model.rstrip('2')
    rc, out = tlc(work, model, module, workers=workers, mem='10g')
    if rc != 0 or 'No error has been found' not in out:
        raise Trouble('model %s: TLC says\n%s' % (model, out[-3000:]))
    n = counts(out)
    if not n[0]:
        raise Trouble('model %s: no statistics' % model)
    return {'model': model, 'states': n[0], 'transitions': n[1]}


def counts(out):
    for ln in out.splitlines():
        if 'distinct states found' in ln and 'states generated' in ln and not ln.startswith('Progress'):
            w = ln.replace(',', '').split()
            return int(w[3]), int(w[0])
    return 0, 0


def plain(v, key=''):
    """A recorded value with its numbers written out."""
    if isinstance(v, list):
        if len(v) == 2 and all(isinstance(n, int) and not isinstance(n, bool) for n in v) \
                and any(abs(n) > 1 << 16 for n in v) or v == [0, 0]:
            x = struct.unpack('>d', struct.pack('>ii', *v))[0]
            return x if x == x and abs(x) < 1e300 else str(x)
        return [plain(n) for n in v] if len(v) <= 12 else '%d values' % len(v)
    if isinstance(v, dict):
        return {k: plain(n) for k, n in v.items()}
    return v


SHOW = ('sys', 'td', 'lay', 'weak', 'update', 'p', 'geo', 'mode', 'tdl', 'phi', 'li', 'mi', 'ki',
        'L', 'rested', 'dof', 'num', 'unit', 'fn', 'call', 'want', 'kind', 'field', 'name', 'm')


def sample(trace, index, family):
    """The calls of one scenario with their arguments (not their answers)."""
    starts = index['index']
    for n, s in enumerate(starts):
        if s[1] == family:
            a = s[0]
            b = starts[n + 1][0] - 1 if n + 1 < len(starts) else index['lines']
            break
    else:
        return None
    calls = []
    with open(trace) as f:
        for n, ln in enumerate(f, 1):
            if a < n <= b:
                e = json.loads(ln)
                calls.append({'ev': e['ev'], 'object': e.get('i', 0),
                              **{k: plain(e[k]) for k in SHOW if k in e}})
                if e.get('exc'):
                    calls[-1]['raised'] = e['exc'][:80]
            if n > b or len(calls) >= 14:
                break
    return {'scenario': '%s #%s' % (family, s[2]), 'calls': calls}


def layouts(work, maxseg):
    out = os.path.join(work, 'layouts%d.csv' % maxseg)
    cfg = os.path.join(work, 'LayoutGen%d' % maxseg)
    with open(os.path.join(SPEC, 'LayoutGen.cfg')) as f:
        t = f.read().replace('MaxSeg = 4', 'MaxSeg = %d' % maxseg)
    with open(cfg + '.cfg', 'w') as f:
        f.write(t)
    rc, msg = tlc(work, cfg, 'LayoutGen', env={'GENOUT': out})
    if rc != 0 or not os.path.exists(out):
        raise Trouble('LayoutGen: ' + msg[-2000:])
    return out


def histories(work, cfg, num, seed):
    out = os.path.join(work, cfg + '.csv')
    rc, msg = tlc(work, cfg, 'WeacGen', env={'GENOUT': out},
                  extra=['-simulate', 'num=%d' % num, '-depth', '44', '-seed', str(seed)])
    if rc != 0 or not os.path.exists(out):
        raise Trouble('%s: %s' % (cfg, msg[-2000:]))
    return out


def shard(work, prop, seed, n, job):
    """Execute and validate one part of the scenarios."""
    d = os.path.join(work, 'shard%d' % n)
    os.makedirs(d)
    job = dict(job, scratch=os.path.join(d, 'scratch'))
    jf, tr, ix, res = (os.path.join(d, f) for f in ('job.json', 'trace.ndjson', 'index.json',
                                                    'result.json'))
    with open(jf, 'w') as f:
        json.dump(job, f)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               MPLCONFIGDIR=d, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', WEAC_REPO=REPO,
               TMPDIR=d)
    t0 = time.time()
    r = subprocess.run([PY, os.path.join(ROOT, 'harness', 'drive.py'), prop, str(seed), jf, tr, ix],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        if 'import weac' in r.stdout and '/weac/' in r.stdout:
            # the package cannot even be imported
            return {'fails': [{'clause': 'answered: import', 'family': 'import', 'k': 0,
                               'exc': r.stdout[-500:]}], 'tally': {}, 'lines': 0, 'scen': 0, 'counts': (0, 0), 'samples': [],
                    'wall': [time.time() - t0, 0]}
        raise Trouble('driver: ' + r.stdout[-3000:])
    t1 = time.time()
    with open(ix) as f:
        index = json.load(f)
    if index['lines'] == 0:
        raise Trouble('empty trace')
    rc, out = tlc(work, 'WeacTrace', 'WeacTrace', mem='3g',
                  env={'TRACE': tr, 'OUT': res, 'FOCUS': prop})
    if rc != 0 or not os.path.exists(res):
        shutil.copy(tr, os.path.join(ROOT, 'build', 'last-trouble.ndjson'))
        raise Trouble('trace validation: ' + out[-3000:])
    with open(res) as f:
        result = json.load(f)
    if result['lines'] != index['lines']:
        raise Trouble('trace validation stopped at line %s of %s' % (result['lines'], index['lines']))
    starts = index['index']
    fails = []
    want = {f['line'] for f in result['fails']}
    excs = {}
    if want:
        with open(tr) as f:
            for n, ln in enumerate(f, 1):
                if n in want:
                    excs[n] = json.loads(ln).get('exc', '')
    for f in result['fails']:
        s = [x for x in starts if x[0] <= f['line']][-1]
        fails.append({'clause': f['clause'], 'ev': f['ev'], 'line': f['line'] - s[0],
                      'family': s[1], 'k': s[2], 'exc': excs.get(f['line'], '')})
    return {'fails': fails, 'tally': result['tally'], 'lines': index['lines'],
            'scen': len(starts), 'counts': counts(out),
            'samples': [sample(tr, index, f) for f in dict.fromkeys(x[1] for x in starts)],
            'wall': [t1 - t0, time.time() - t1]}


def known():
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float)
    ap.add_argument('--only')
    ap.add_argument('--nomodel', action='store_true')
    a = ap.parse_args()
    prop, deep = a.prop, a.tier == 'thorough'
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='weac-verif-')
    try:
        return run(a, prop, deep, work, t0)
    except Trouble as x:
        print('MACHINERY FAILURE:', x)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(a, prop, deep, work, t0):
    classes()
    fams = dict(FAMILIES[prop])
    if a.only:
        fams = {k: fams.get(k, 40) for k in a.only.split(',')}
    scale = a.scale or (DEEP if deep else 1)
    fams = {k: max(1, int(n*scale)) for k, n in fams.items()}
    seed = a.seed
    jobs = [(f, k) for f in fams for k in range(fams[f])]
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        seed, deep = rp['seed'], rp['tier'] == 'thorough'
        jobs = [tuple(j) for j in rp['jobs']]
        fams = rp['families']
    pool = concurrent.futures.ThreadPoolExecutor(CORES)
    quickm, deepm = MODELS.get(prop, ([], []))
    models = [] if a.nomodel else quickm + (deepm if deep else [])
    # generation first, the models run beside it
    gens = {c: pool.submit(histories, work, c, max(n for f, n in fams.items() if HISTS.get(f) == c),
                           seed) for c in {HISTS[f] for f in fams if f in HISTS}}
    lay = pool.submit(layouts, work, 5 if deep else 4)
    mods = [] if deep else [pool.submit(explore, work, m, 2) for m in models]
    base = {'layouts': lay.result(), 'plots': prop in ('C20', 'C01', 'C02', 'C18', 'ALL')}
    hist = {c: g.result() for c, g in gens.items()}
    # a history file belongs to a family; keep those together
    parts = []
    for c in sorted({HISTS.get(f, '') for f in fams}):
        mine = [j for j in jobs if HISTS.get(j[0], '') == c]
        parts.append((c, mine))
    batches = []
    per = 160 if not deep else 200
    total = len(jobs)
    for c, mine in parts:
        n = max(1, min(len(mine), round(CORES*len(mine)/total) if total <= CORES*per
                       else -(-len(mine)//per)))
        for s in range(n):
            part = mine[s::n]
            if part:
                batches.append(dict(base, jobs=part, hists=hist.get(c, '')))
    res = list(pool.map(lambda x: shard(work, prop, seed, x[0], x[1]), enumerate(batches)))
    # the big models get the machine to themselves
    stats = [m.result() for m in mods] if not deep else [explore(work, m, CORES) for m in models]

    tally, fails = {}, []
    for r in res:
        for c, n in r['tally'].items():
            tally[c] = tally.get(c, 0) + n
        fails += r['fails']
    broken = [f for f in fails if f['clause'].startswith('MACHINERY')]
    real = [f for f in fails if f not in broken]
    kn = [k for k in known() if prop in (k['property'], 'ALL')]
    listed = [f for f in real if any(k['clause'] == f['clause'] and k['family'] == f['family']
                                     for k in kn)]
    new = [f for f in real if f not in listed]
    verdict = 'violated' if new else 'held'
    cov = {
        'states': sum(s['states'] for s in stats) + sum(r['counts'][0] for r in res),
        'transitions': sum(s['transitions'] for s in stats) + sum(r['counts'][1] for r in res),
        'models': stats,
        'traces_validated_against_impl': sum(r['scen'] for r in res),
        'calls_validated': sum(r['lines'] for r in res),
        'samples': list({x['scenario'].split(' ')[0]: x for r in res for x in r['samples']}.values()),
        'clauses': dict(sorted(tally.items())),
        'scenarios': fams,
        'known_findings_seen': len(listed),
    }
    ev = {'property': prop, 'tier': 'thorough' if deep else 'quick', 'seed': seed,
          'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new), 'assumptions': [
              'java.lang.Math evaluates the specification in IEEE double precision',
              'scenarios are sampled from VERIF_SEED; models are explored exhaustively']}
    if not a.replay and not a.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d scenarios, %d calls, %d clauses; %s; %.1f s (drive %.0f, validate %.0f)' % (
        prop, ev['tier'], seed, cov['traces_validated_against_impl'], cov['calls_validated'],
        sum(tally.values()), ', '.join('%(model)s %(states)d states' % s for s in stats) or 'no model',
        time.time() - t0, max(r['wall'][0] for r in res), max(r['wall'][1] for r in res)))
    for k in kn:
        if any(f['clause'] == k['clause'] and f['family'] == k['family'] for f in listed):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if new:
        hit = sorted({(f['family'], f['k']) for f in new})
        path = os.path.join(ROOT, 'build', 'replay-%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': ev['tier'], 'jobs': hit[:5],
                       'families': fams, 'fails': new[:40]}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        seen = {}
        for f in new:
            seen.setdefault((f['clause'], f['family']), []).append(f)
        for (c, fam), fs in sorted(seen.items(), key=lambda x: -len(x[1]))[:25]:
            print('  %-50s %-18s %4d times, e.g. #%s line %s %s' % (
                c, fam, len(fs), fs[0]['k'], fs[0].get('line'), fs[0].get('exc', '')[:160]))
    if broken and not new:
        print('MACHINERY FAILURE:', broken[:5])
        return 2
    return 1 if verdict == 'violated' else 0


if __name__ == '__main__':
    sys.exit(main())
