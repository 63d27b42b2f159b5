"""Run scenarios on the real code and record them (one shard of a check).

usage: drive.py PROP SEED JOBS.json OUT.ndjson INDEX.json
JOBS: {"jobs": [[family, number], ...], "layouts": file, "hists": file,
       "scratch": dir}
"""
import json
import os
import sys
import warnings
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')

import numpy as np          # noqa: E402

import rec                  # noqa: E402
import scen                 # noqa: E402


def read_lines(path):
    out = []
    if path and os.path.exists(path):
        with open(path) as f:
            for ln in f:
                v = json.loads(ln)
                out.append(json.loads(v) if isinstance(v, str) else v)
    return out


class Ctx:
    """Structures and behaviours generated by TLC."""

    def __init__(self, layouts, hists, plots):
        self.layouts = [p['segs'] for p in layouts]
        self.hists = hists
        self.plots = plots
        self.cur = None
        out = [p for p in self.layouts if p[0]['b'] and p[-1]['b'] and not p[0]['z']
               and not p[-1]['z']]
        adv = lambda ps: [p for p in ps if any(s['b0'] and not s['b'] and not s['z'] for s in p)]
        self.sets = {('inf', None): out, ('inf', 'advance'): adv(out),
                     ('saw', None): self.layouts, ('saw', 'advance'): adv(self.layouts)}

    def pattern(self, rng, system, need=None):
        ps = self.sets['inf' if system in ('skier', 'skiers') else 'saw', need]
        # longer patterns carry more; first the length, then the pattern
        n = int(rng.choice([1, 2, 3, 4, 5], p=[.04, .16, .25, .45, .1]))
        qs = [p for p in ps if len(p) == n] or ps
        p = [dict(s) for s in qs[int(rng.integers(len(qs)))]]
        while rng.random() < 0.1 and len(p) < 14:        # longer ones: several in a row
            p[-1]['s'] = bool(rng.random() < 0.3)
            p += [dict(s) for s in qs[int(rng.integers(len(qs)))]]
        return p

    def history(self, rng):
        return self.hists[self.cur % len(self.hists)]

    def tokens(self, rng, near=False):
        return scen.Tokens(rng, near)


VARIANTS = {
    # name: (function, keyword arguments)
    'history': ('history', {}),
    'history_rep': ('history', {'rep': True, 'twins': False}),
    'history_td': ('history', {'twins': False}),
    'history_churn': ('history', {'churn': True, 'twins': False}),
    'history_churn_td': ('history', {'churn': True, 'twins': False}),
    'history_rej': ('history', {'twins': False}),
    'solve_saw_rep': ('solve_saw', {'rep': True}),
    'solve_pattern_rep': ('solve_pattern', {'rep': True}),
    'solve_skier_rep': ('solve_skier', {'rep': True}),
    'solve_contact_rep': ('solve_contact', {'rep': True}),
    'solve_contact_BC': ('solve_contact', {'stages': ('B', 'C'), 'springs': True, 'ev': False}),
    'solve_infinite': ('solve_pattern', {'system': 'skiers', 'ev': False}),
    'raster_rep': ('raster', {'rep': True}),
    'gdif_rep': ('gdif', {'rep': True}),
    'ginc_rep': ('ginc', {'rep': True}),
}


def main(prop, seed, jobfile, out, index):
    with open(jobfile) as f:
        job = json.load(f)
    os.makedirs(job['scratch'], exist_ok=True)
    os.environ['MPLCONFIGDIR'] = job['scratch']
    os.environ['MPLBACKEND'] = 'Agg'
    os.chdir(job['scratch'])
    import weac
    import weac.tools
    repo = os.environ.get('WEAC_REPO', '/repo')
    assert os.path.realpath(weac.__file__).startswith(os.path.realpath(repo) + os.sep), weac.__file__
    P = None
    if job.get('plots'):
        import plots
        import weac.plot
        plots.SCRATCH = job['scratch']
        P = plots.Plots(weac.plot)
    ctx = Ctx(read_lines(job.get('layouts')), read_lines(job.get('hists')), P)
    R = rec.Rec(out, prop, weac, weac.tools, limit=job.get('limit', 150))
    for fam, k in job['jobs']:
        fn, kw = VARIANTS.get(fam, (fam, {}))
        f = getattr(scen, fn)
        ctx.cur = k
        rng = np.random.default_rng([int(seed), zlib.crc32(fam.encode()), int(k)])
        R.scenario(fam, k, lambda r: f(r, rng, ctx, **kw))
    R.close()
    with open(index, 'w') as f:
        json.dump({'lines': R.lines, 'index': R.index}, f)


if __name__ == '__main__':
    main(*sys.argv[1:6])
