"""Numbers for abstract requests (all choices from one seeded generator)."""
import os

import numpy as np

import mini
from rec import PROFILES, laydef, slab_of

SAW = ('pst-', '-pst', 'vpst-', '-vpst')
NORMAL_SAW = ('pst-', '-pst')
INF = ('skier', 'skiers')


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def rough(x, digits):
    """Rounded, but every third number keeps all its digits."""
    x = np.asarray(x, float)
    keep = (np.abs(x)*1e9 % 3) < 1
    return np.where(keep, x, np.round(x, digits))


def r3(x):
    return float(rough(x, 3))


TAIL = float(os.environ.get('WEAC_VERIF_TAIL', '0.12'))     # share of unusual numbers


def tail(rng):
    return rng.random() < TAIL


def phi(rng, zero=0.15):
    if rng.random() < zero:
        return 0.0
    s = 1 if rng.random() < 0.5 else -1
    v = choice(rng, [rng.uniform(0.5, 10), rng.uniform(10, 45), rng.uniform(45, 60)])
    if tail(rng):
        v = choice(rng, [rng.uniform(60, 85), rng.uniform(0.001, 0.5)])
    if rng.random() < 0.1:
        return s*int(round(v))
    return s*r3(v)


def rows(rng, nmax=6):
    n = int(rng.integers(1, nmax + 1))
    rho = rough(rng.uniform(100, 450, n), 1)
    h = rough(rng.uniform(20, 400 if n < 3 else 150, n), 1)
    if tail(rng):           # many thin layers
        n = int(rng.integers(7, 15))
        rho = rough(rng.uniform(80, 450, n), 1)
        h = rough(rng.uniform(3, 80, n), 1)
    if tail(rng):           # unusually light, heavy, thin or thick ones
        k = int(rng.integers(n))
        rho[k] = choice(rng, [round(rng.uniform(40, 100), 1), round(rng.uniform(450, 900), 1)])
        h[k] = choice(rng, [round(rng.uniform(2, 20), 1), round(rng.uniform(400, 1200), 1)])
    if n > 1 and tail(rng):             # equal neighbours
        k = int(rng.integers(n - 1))
        rho[k + 1] = rho[k]
        if rng.random() < 0.5:
            h[k + 1] = h[k]
    return [[float(a), float(b)] for a, b in zip(rho, h)]


def layers(rng, kinds=('list', 'list', 'list', 'profile', 'default'), nmax=6, plain=False):
    k = choice(rng, kinds)
    if k == 'default':
        return laydef('default', [[240, 200], ], law=True)
    if k == 'profile':
        nm = choice(rng, PROFILES)
        arg = choice(rng, [nm, nm.upper(), nm.capitalize(), 'profile ' + nm])
        if plain or rng.random() < 0.6:
            return laydef('profile', arg, nm)
        return laydef('profile', arg, nm, nu=r3(rng.uniform(0.05, 0.45)), law=False)
    r = rows(rng, nmax)
    style = rng.integers(4)
    arg = r
    if style == 1:
        arg = np.array(r)
    elif style == 2:
        arg = [[int(a), int(b)] for a, b in r]
    elif style == 3:
        arg = np.array([[int(a), int(b)] for a, b in r])
    if plain or rng.random() < 0.5:
        return laydef('list', arg)
    law = {'C0': r3(rng.uniform(4, 9)), 'C1': r3(rng.uniform(3.8, 5)),
           'nu': r3(rng.uniform(0.05, 0.45))}
    if rng.random() < 0.4:      # some of them as usual
        for k in rng.choice(['C0', 'C1', 'nu'], int(rng.integers(1, 3)), replace=False):
            del law[str(k)]
    return laydef('list', arg, law=False, **law)


def weak(rng, tmin=3, tmax=60):
    if rng.random() < 0.15:
        return (0.25, 0.25, 30.0)
    E = r3(np.exp(rng.uniform(np.log(0.05), np.log(5))))
    nu = r3(rng.uniform(0.0, 0.45))
    t = r3(np.exp(rng.uniform(np.log(tmin), np.log(tmax))))
    if tail(rng):
        E = r3(choice(rng, [rng.uniform(0.01, 0.05), rng.uniform(5, 20)]))
    if tail(rng):
        nu = choice(rng, [0.0, r3(rng.uniform(0.45, 0.495))])
    if tail(rng):
        t = r3(choice(rng, [rng.uniform(tmin/3, tmin), rng.uniform(tmax, 2*tmax)]))
    if rng.random() < 0.15:     # some of them as usual
        E, nu, t = [(0.25, nu, t), (E, 0.25, t), (E, nu, 30.0)][int(rng.integers(3))]
    if tail(rng):           # whole numbers
        E, t = int(np.ceil(E)), int(np.ceil(t))
    return (E, nu, t)


def surface(rng, zero=0.4):
    if tail(rng):
        return choice(rng, [1, r3(rng.uniform(3, 10)), 0.001])
    return 0.0 if rng.random() < zero else r3(np.exp(rng.uniform(np.log(0.02), np.log(3))))


def config(rng, **kw):
    """lay for the constructor plus settings to follow."""
    return {'lay': layers(rng, **kw), 'weak': weak(rng), 'p': surface(rng)}


def make(rec, i, system, cfg, td=False):
    """Configured, up-to-date model; non-default laws need set_beam_properties."""
    lay = cfg['lay']
    if lay['law']:
        rec.new(i, system, lay, td)
    else:
        rec.new(i, system, laydef('default', [[240, 200]]), td)
        rec.beam(i, lay, update=True)
    if cfg.get('weak') is not None:
        rec.foundation(i, cfg['weak'], update=True)
    if cfg.get('p'):
        rec.load(i, cfg['p'])
    return rec.models[i]


def saw(rng, system):
    """Column length and crack length of a saw test without touchdown."""
    L = r3(np.exp(rng.uniform(np.log(500), np.log(8000))))
    f = choice(rng, [rng.uniform(0.02, 0.15), rng.uniform(0.15, 0.5), rng.uniform(0.5, 0.9)])
    a = r3(f*L)
    if rng.random() < 0.2:                  # whole numbers, as integers
        L, a = int(L), max(1, int(a))
    return {'L': L, 'a': a, 'phi': phi(rng), 'cf': r3(rng.uniform(0.2, 0.8)),
            'ratio': r3(rng.uniform(10, 2000))}


def skier(rng):
    L = r3(rng.uniform(15000, 40000))
    a = choice(rng, [0.0, r3(rng.uniform(10, 200)), r3(rng.uniform(200, 3000))])
    m = choice(rng, [0.0, r3(rng.uniform(20, 150)), r3(rng.uniform(20, 150))])
    if rng.random() < 0.2:
        L, a, m = int(L), int(a), int(m)
    return {'L': L, 'a': a, 'm': m, 'phi': phi(rng)}


def concretize(rng, segs, outer=(5000, 15000), inner=(20, 2500), masses=True):
    """Numbers for a structure generated by LayoutGen."""
    li, mi = [], []
    n = len(segs)
    for k, s in enumerate(segs):
        if s['z']:
            li.append(0.0)
        elif k in (0, n - 1) and outer:
            li.append(r3(rng.uniform(*outer)))
        else:
            li.append(r3(np.exp(rng.uniform(*np.log(inner)))))
        if k < n - 1:
            v = choice(rng, [0.5, 400.0, 80]) if tail(rng) else r3(rng.uniform(20, 140))
            mi.append(v if s['s'] and masses else 0.0)
    lo = 1 if outer else 0
    for k in range(lo, n - lo):             # next to nothing, and very long
        if li[k] and tail(rng):
            old, li[k] = li[k], choice(rng, [1e-7, 1e-3, 0.01, 0.5, 5.0, 6000.0])
            if sum(l for l, s in zip(li, segs) if s['b']) < 50:
                li[k] = old                 # (but something has to carry the slab)
    # a slab hanging far out over next to no support is lifted by kilometres, and
    # rounding is lifted along with it: the support holds a 25th of the length
    free = sum(l for l, s in zip(li, segs) if not s['b'])
    bed = sum(l for l, s in zip(li, segs) if s['b'])
    if not outer and 0 < bed < free/25:
        li = [l*(free/25/bed) if s['b'] else l for l, s in zip(li, segs)]
    if tail(rng):                           # whole numbers
        li = [int(np.ceil(v)) for v in li]
    return {'li': np.array(li), 'mi': np.array(mi),
            'ki': np.array([s['b'] for s in segs]), 'k0': np.array([s['b0'] for s in segs])}


def contact(rng, td=True, cfgs=None, tries=400, stages=('A', 'B', 'C'), margin=0.9):
    """Configuration and column in which the slab can touch down."""
    for _ in range(tries):
        cfg = choice(rng, cfgs) if cfgs else config(rng)
        if not cfgs and rng.random() < 0.5:
            cfg['weak'] = weak(rng, 10, 60)
        bm = mini.Beam(slab_of(cfg['lay']), cfg['weak'], cfg['p'])
        ph = phi(rng)
        cf = r3(rng.uniform(0.2, 0.8)) if rng.random() < 0.7 else 0.5
        L = r3(np.exp(rng.uniform(np.log(1500), np.log(30000))))
        with np.errstate(all='ignore'):
            tr = mini.transitions(bm, ph, L, cf)
        if tr is None:
            continue
        a1, a2, tc, qn = tr
        if not (a2 < margin*L and a1 > 5e-3*L and tc > 0.02*bm.t and a1 < 0.98*a2):
            continue
        st = choice(rng, stages)
        hi = min(0.95*L, 3.5*a2)
        rg = {'A': (0.1*a1, a1), 'B': (a1, a2), 'C': (a2, hi)}[st]
        f = choice(rng, [rng.uniform(0.002, 0.02), rng.uniform(0.02, 0.98), rng.uniform(0.98, 0.998)])
        a = float(np.round(rg[0] + f*(rg[1] - rg[0]), 6))
        if st == 'C':
            # rested segments below a thousandth of a2 are a finding of their own
            a = max(a, float(np.round(a2*1.001, 6)))
        geo = {'L': L, 'a': a, 'phi': ph, 'cf': cf,
               'ratio': choice(rng, [1000.0, r3(rng.uniform(5, 3000))])}
        return cfg, geo, (a1, a2)
    raise RuntimeError('no contact configuration found')


def raster_num(rng, li, lo=1, hi=60):
    """A number of points whose shares do not sit on a rounding edge."""
    li = np.asarray(li)[np.asarray(li) > 0]
    for _ in range(200):
        num = int(rng.integers(lo, hi))
        sh = li/li.sum()*num
        if np.all((np.abs(sh - np.round(sh)) > 1e-6) | (sh < 0.5)):
            return num
        if len(li) == 1:
            return num
    return None
