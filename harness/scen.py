"""Scenario families: which calls are made, with which numbers."""
import numpy as np

import gen
import mini
from gen import INF, NORMAL_SAW, SAW, choice, make, r3
from rec import Abort, laydef

GEO0 = {'cf': 0.5, 'ratio': 1000.0}


def segs_of(s, which='crack'):
    return {k: s[which][k] for k in ('li', 'mi', 'ki')}


def part(segs, with_m=True):
    return {k: segs[k] for k in (('li', 'mi', 'ki') if with_m else ('li', 'ki'))}


# ------------------------------------------------------------ C03, C04, C05
def stiffness(R, rng, ctx):
    """Construct and reconfigure, also halved layers and reversed stacks."""
    if rng.random() < 0.3:
        lay = gen.layers(rng, kinds=('list', 'list', 'profile'), plain=True)
        R.new(1, choice(rng, SAW + INF), lay,
              inverse=(r3(rng.uniform(4, 9)), r3(rng.uniform(3.8, 5)), r3(rng.uniform(0.05, 3))))
    else:
        R.new(1, choice(rng, SAW + INF), gen.layers(rng, plain=True))
    for _ in range(3):
        k = rng.integers(4)
        if k == 0:
            R.foundation(1, gen.weak(rng), update=True)
        elif k == 1:
            R.foundation(1, (0.25, 0.25, 30.0), update=True, defaults=True)
        else:
            R.beam(1, gen.layers(rng, kinds=('list', 'list', 'list', 'profile')), update=True)
    # the same slab with split layers, and upside down
    r = gen.rows(rng, 5)
    C = dict(C0=r3(rng.uniform(4, 9)), C1=r3(rng.uniform(3.8, 5)), nu=r3(rng.uniform(0, 0.45)), law=False)
    R.beam(1, laydef('list', r, **C))
    split = []
    for rho, h in r:
        n = int(rng.integers(1, 4))
        split += [[rho, h/n]]*n
    R.beam(1, laydef('list', np.array(split), **C), update=False)
    R.recalc(1)
    R.beam(1, laydef('list', r[::-1], **C), update=True)


def loads(R, rng, ctx):
    cfg = gen.config(rng)
    make(R, 1, choice(rng, SAW + INF), cfg)
    for _ in range(3):
        if rng.random() < 0.5:
            p = gen.surface(rng, 0.2)
            R.load(1, -p if rng.random() < 0.2 else p)        # upward, too
        if rng.random() < 0.3:
            R.beam(1, gen.layers(rng, kinds=('list', 'profile')), update=True)
        ph = gen.phi(rng)
        n = int(rng.integers(1, 5))
        mass = [float(np.round(v, 2)) for v in rng.uniform(0, 150, n)]
        R.loads(1, ph, choice(rng, [mass, np.array(mass), mass[0], int(mass[0])]), total=False)
        R.segments(1, L=1e4, a=0.0, phi=ph, **({} if R.meta[1]['sys'] != 'skiers' else explicit(rng)))
        R.loads(1, ph, np.array(mass), total=True)


def explicit(rng):
    n = int(rng.integers(1, 6))
    li = [r3(v) for v in rng.uniform(10, 9000, n)]
    ki = [True]*n
    for k in range(1, n - 1):
        ki[k] = bool(rng.random() < 0.5)
    mi = [r3(v) if rng.random() < 0.6 else 0 for v in rng.uniform(20, 140, n - 1)]
    k0 = [k or bool(rng.random() < 0.7) for k in ki]
    form = np.array if rng.random() < 0.5 else list
    if rng.random() < 0.3:          # whole numbers beside fractions
        which = rng.integers(1, 4)
        li = [int(np.ceil(v)) for v in li] if which & 1 else li
        mi = [int(np.ceil(v)) for v in mi] if which & 2 else mi
    return {'li': form(li), 'mi': form(mi), 'ki': form(ki), 'k0': form(k0)}


def segments(R, rng, ctx):
    for system in rng.permutation(SAW + INF):
        system = str(system)
        cfg = gen.config(rng)
        make(R, 1 + (SAW + INF).index(system), system, cfg)
        i = 1 + (SAW + INF).index(system)
        for _ in range(3):
            if system == 'skiers':
                R.segments(i, phi=gen.phi(rng), **explicit(rng))
            elif system == 'skier':
                R.segments(i, terse=bool(rng.random() < 0.5), **gen.skier(rng))
            else:
                g = gen.saw(rng, system)
                if rng.random() < 0.1:
                    g['a'] = choice(rng, [0.0, g['L']])
                R.segments(i, terse=bool(rng.random() < 0.5), **g)


def segments_contact(R, rng, ctx):
    cfg, geo, _ = gen.contact(rng)
    system = choice(rng, NORMAL_SAW)
    make(R, 1, system, cfg, td=True)
    R.segments(1, **geo)


# --------------------------------------------------- C06, C07, C08 (solutions)
def solve_saw(R, rng, ctx, systems=SAW, rep=False, ev=True):
    system = choice(rng, systems)
    cfg = gen.config(rng)
    make(R, 1, system, cfg)
    g = gen.saw(rng, system)
    s = R.segments(1, **g)
    for which in (('crack', 'nocrack') if rng.random() < 0.5 else ('crack',)):
        sg = segs_of(s, which)
        C = R.solve(1, g['phi'], sg, rng, rep=rep)
        if ev:
            R.eval(1, g['phi'], C, sg, rng)
    return g, s


def solve_pattern(R, rng, ctx, system=None, rep=False, ev=True, need=None):
    """A structure generated by LayoutGen."""
    system = system or choice(rng, ('skiers', 'skiers', 'pst-', '-pst', 'vpst-', '-vpst'))
    pat = ctx.pattern(rng, system, need)
    cfg = gen.config(rng)
    make(R, 1, system, cfg)
    ph = gen.phi(rng)
    n = gen.concretize(rng, pat, outer=(4000, 15000) if system == 'skiers' else None)
    if system == 'skiers':
        s = R.segments(1, phi=ph, **n)
        sg = segs_of(s)
    else:
        R.segments(1, L=float(n['li'].sum()), a=0.0, phi=ph)
        sg = part(n)
    C = R.solve(1, ph, sg, rng, nsamp=4, rep=rep)
    if ev:
        R.eval(1, ph, C, sg, rng, n=2)
    return ph, n, C


def solve_skier(R, rng, ctx, rep=False, ev=True):
    cfg = gen.config(rng)
    make(R, 1, 'skier', cfg)
    g = gen.skier(rng)
    s = R.segments(1, **g)
    for which in (('crack', 'nocrack') if rng.random() < 0.5 else ('crack',)):
        sg = segs_of(s, which)
        C = R.solve(1, g['phi'], sg, rng, rep=rep)
        if ev:
            R.eval(1, g['phi'], C, sg, rng)


def solve_contact(R, rng, ctx, stages=('A', 'B', 'C'), springs=False, ev=True, rep=False):
    cfg, geo, _ = gen.contact(rng, stages=stages)
    system = choice(rng, NORMAL_SAW)
    m = make(R, 1, system, cfg, td=True)
    s = R.segments(1, **geo)
    kr = 0.0
    if m.mode == 'C':
        ln = geo['a'] - float(m.td)
        bm = R.bm(1)
        kr = mini.spring(bm, geo['ratio'], ln, 'rot')
        if springs:
            R.subst(1, ln, True, 'rot', geo['ratio'])
    sg = segs_of(s)
    C = R.solve(1, geo['phi'], sg, rng, kr=kr, rep=rep)
    if ev:
        R.eval(1, geo['phi'], C, sg, rng)
    if rng.random() < 0.3 and not springs:      # uncracked column in the same stage
        R.solve(1, geo['phi'], segs_of(s, 'nocrack'), rng, rep=rep)


def solve_single(R, rng, ctx):
    """One segment only."""
    system = choice(rng, ('skiers', 'skiers', 'pst-', '-vpst'))
    make(R, 1, system, gen.config(rng))
    ph = gen.phi(rng)
    sg = {'li': np.array([r3(rng.uniform(100, 20000))]), 'mi': np.array([]),
          'ki': np.array([True])}
    if system == 'skiers':
        R.segments(1, phi=ph, k0=np.array([True]), **sg)
    else:
        R.segments(1, L=float(sg['li'][0]), a=0.0, phi=ph)
    C = R.solve(1, ph, sg, rng)
    R.raster(1, ph, C, sg, gen.raster_num(rng, sg['li']))


# ------------------------------------------------------------- C09 relations
def sample_points(rng, li, k=3):
    """Global positions inside non-empty segments, with their segments."""
    pos = np.concatenate(([0], np.cumsum(li)))
    out = []
    for j in range(len(li)):
        if li[j] > 0:
            out += [(j, float(x)) for x in li[j]*rng.random(k)]
            out += [(j, 0.0), (j, float(li[j]))]
    return pos, out


def mirror(R, rng, ctx):
    u = rng.random()
    cfg = gen.config(rng)
    if u < 0.4:
        pat = ctx.pattern(rng, 'skiers')
        n = gen.concretize(rng, pat, outer=(4000, 12000))
        sysa, ph = 'skiers', gen.phi(rng, 0.05)
        make(R, 1, sysa, cfg)
        make(R, 2, sysa, cfg)
        rv = {k: n[k][::-1].copy() for k in n}
        a = segs_of(R.segments(1, phi=ph, **n))
        b = segs_of(R.segments(2, phi=-ph, **rv))
    elif u < 0.7:
        sysa = choice(rng, SAW)
        sysb = sysa[1:] + '-' if sysa[0] == '-' else '-' + sysa[:-1]
        g = gen.saw(rng, sysa)
        ph = g['phi']
        make(R, 1, sysa, cfg)
        make(R, 2, sysb, cfg)
        a = segs_of(R.segments(1, **g))
        b = segs_of(R.segments(2, **dict(g, phi=-ph)))
    else:
        cfg, g, _ = gen.contact(rng)
        sysa = choice(rng, NORMAL_SAW)
        sysb = sysa[1:] + '-' if sysa[0] == '-' else '-' + sysa[:-1]
        ph = g['phi']
        make(R, 1, sysa, cfg, td=True)
        make(R, 2, sysb, cfg, td=True)
        a = segs_of(R.segments(1, **g))
        b = segs_of(R.segments(2, **dict(g, phi=-ph)))
    Ca = R.models[1].assemble_and_solve(phi=ph, **a)
    Cb = R.models[2].assemble_and_solve(phi=-ph, **b)
    nseg = len(a['li'])
    _, pts = sample_points(rng, a['li'], 2)
    pairs = []
    for j, x in pts:
        k = nseg - 1 - j
        za = R.zat(R.models[1], Ca, a['li'], a['ki'], ph, j, x)[0]
        y = float(min(max(b['li'][k] - x, 0.0), b['li'][k]))
        zb = R.zat(R.models[2], Cb, b['li'], b['ki'], -ph, k, y)[0]
        pairs.append((za, zb))
    R.relate('mirror', 1, 2, dict(a, phi=ph), dict(b, phi=-ph), pairs)


def split(R, rng, ctx):
    """Cut segments into pieces; insert empty segments."""
    system = choice(rng, ('skiers', 'skiers', 'pst-', '-pst', 'vpst-', '-vpst'))
    pat = [s for s in ctx.pattern(rng, system) if not s['z']]
    pat[-1] = dict(pat[-1], s=False)
    n = gen.concretize(rng, pat, outer=(4000, 12000) if system == 'skiers' else None)
    cfg = gen.config(rng)
    ph = gen.phi(rng)
    li, mi, ki, src = [], [], [], []
    for j, l in enumerate(n['li']):
        k = int(rng.integers(1, 4))
        w = rng.uniform(0.1, 1, k)
        w = w/w.sum()*l
        if k > 1:
            w[-1] = l - w[:-1].sum()
        pieces = list(w)
        if rng.random() < 0.3 and (system not in INF or 0 < j < len(n['li']) - 1 or n['ki'][j]):
            pieces.insert(int(rng.integers(0, k + 1)), 0.0)
        off = 0.0
        for q, v in enumerate(pieces):
            li.append(float(v))
            ki.append(bool(n['ki'][j]))
            src.append((j, off))
            off += v
            last = q == len(pieces) - 1
            mi.append(float(n['mi'][j]) if last and j < len(n['mi']) else 0.0)
    mi = mi[:-1]
    b = {'li': np.array(li), 'mi': np.array(mi), 'ki': np.array(ki)}
    m = make(R, 1, system, cfg)
    if system == 'skiers':
        a = segs_of(R.segments(1, phi=ph, **n))
    else:
        R.segments(1, L=float(n['li'].sum()), a=0.0, phi=ph)
        a = part(n)
    Ca = m.assemble_and_solve(phi=ph, **a)
    Cb = m.assemble_and_solve(phi=ph, **b)
    pairs = []
    for q in range(len(li)):
        j, off = src[q]
        for f in (0.0, 1.0, float(rng.random())):
            x = float(min(off + f*li[q], n['li'][j]))
            pairs.append((R.zat(m, Ca, a['li'], a['ki'], ph, j, x)[0],
                          R.zat(m, Cb, b['li'], b['ki'], ph, q, f*li[q])[0]))
    R.relate('split', 1, 1, dict(a, phi=ph), dict(b, phi=ph), pairs)


def linear(R, rng, ctx):
    """Response to masses and surface load is affine: z(l) with sum c = 0."""
    system = choice(rng, ('skiers', 'skiers', 'pst-', '-pst', 'vpst-', '-vpst', 'skier'))
    cfg = gen.config(rng)
    m = make(R, 1, system, cfg)
    ph = gen.phi(rng)
    if system == 'skier':
        g = dict(gen.skier(rng), phi=ph)
        a = segs_of(R.segments(1, **g))
        n = {k: np.array(a[k]) for k in a}
    else:
        pat = ctx.pattern(rng, system)
        n = gen.concretize(rng, pat, outer=(4000, 12000) if system == 'skiers' else None)
        if system == 'skiers':
            R.segments(1, phi=ph, **n)
        else:
            R.segments(1, L=float(n['li'].sum()), a=0.0, phi=ph)
    nb = len(n['li']) - 1
    cs, ld, zz = [], [], []
    # a negative mass pulls
    lo = choice(rng, [0, 0, -120])
    A = (rng.uniform(lo, 120, nb), gen.surface(rng, 0.1))
    B = (rng.uniform(lo, 120, nb), gen.surface(rng, 0.1))
    al = r3(rng.uniform(0.2, 3))
    combo = [(1.0, (A[0] + al*B[0], A[1] + al*B[1])), (-1.0, A), (-al, B), (al, (0*A[0], 0.0))]
    _, pts = sample_points(rng, n['li'], 1)
    for c, (mass, p) in combo:
        R.load(1, p)
        sg = {'li': n['li'], 'mi': mass, 'ki': n['ki']}
        C = m.assemble_and_solve(phi=ph, **sg)
        cs.append(c)
        ld.append(list(mass) + [p])
        zz.append([R.zat(m, C, n['li'], n['ki'], ph, j, x)[0] for j, x in pts])
    R.linear(1, cs, ld, zz)


# ------------------------------------------------------ C10 raster, C11 fields
def raster(R, rng, ctx, rep=False):
    u = rng.random()
    if u < 0.35:
        cfg, geo, _ = gen.contact(rng)
        make(R, 1, choice(rng, NORMAL_SAW), cfg, td=True)
        s = R.segments(1, **geo)
        sg, ph = segs_of(s), geo['phi']
    else:
        system = choice(rng, ('skiers', 'skiers', 'pst-', '-pst', 'vpst-', '-vpst', 'skier'))
        make(R, 1, system, gen.config(rng))
        ph = gen.phi(rng)
        if system == 'skier':
            sg = segs_of(R.segments(1, **dict(gen.skier(rng), phi=ph)))
        elif u > 0.9 and system != 'skiers':
            L = float(choice(rng, [512., 1024., 4096.]))
            sg = segs_of(R.segments(1, L=L, a=L/float(choice(rng, [2, 4, 8])), phi=ph))
        else:
            n = gen.concretize(rng, ctx.pattern(rng, system),
                               outer=(4000, 15000) if system == 'skiers' else None)
            if system == 'skiers':
                sg = segs_of(R.segments(1, phi=ph, **n))
            else:
                if len(n['li']) > 1 and rng.random() < 0.3:
                    k = int(choice(rng, [0, -1]))
                    old, n['li'][k] = n['li'][k], choice(rng, [1e-7, 1e-7, 1e-3, 1.0])
                    if n['li'][n['ki']].sum() < 50:
                        n['li'][k] = old
                R.segments(1, L=float(n['li'].sum()), a=0.0, phi=ph)
                sg = part(n)
    C = R.models[1].assemble_and_solve(phi=ph, **sg)
    for _ in range(2):
        if u > 0.9:
            num = int(2**rng.integers(2, 7))
            if len(sg['li']) != 2 or not np.all(sg['li']/sg['li'].sum()*num % 1 == 0):
                num = gen.raster_num(rng, sg['li'])
        else:
            num = gen.raster_num(rng, sg['li'])
        if num is not None:
            R.raster(1, ph, C, sg, num, rep=rep)
    if rng.random() < 0.1 and gen.raster_num(rng, sg['li'], 250, 251):
        R.raster(1, ph, C, sg, 250, explicit=False)


def matrix(rng, m, C, sg, ph, num=12):
    x, z, xb = m.rasterize_solution(C=C, phi=ph, num=num, **sg)
    return x, z, xb


def wild(rng, n=6):
    """Arbitrary solution vectors of realistic and odd magnitude."""
    sc = np.array([1, 1e-3, 1, 1e-3, 1e-3, 1e-6])[:, None]
    return rng.normal(size=(6, n))*sc*10**rng.uniform(-3, 2)


LEN, STR, ENE = ('m', 'cm', 'mm', 'um'), ('kPa', 'MPa'), ('J/m^2', 'kJ/m^2', 'N/mm')
ANG = ('deg', 'degree', 'degrees', 'rad', 'radian', 'radians')


def field_specs(rng, m):
    h = float(m.h)
    z0 = float(choice(rng, [0.0, -h/2, h/2, r3(rng.uniform(-h/2, h/2))]))
    sp = [('w', None, None), ('dw_dx', None, None), ('psi', None, None), ('dpsi_dx', None, None),
          ('u', z0, None), ('du_dx', z0, None), ('N', None, None), ('M', None, None),
          ('V', None, None), ('sig', None, None), ('tau', None, None), ('eps', None, None),
          ('gamma', None, None), ('Gi', None, None), ('Gii', None, None)]
    sp += [('w', None, u) for u in LEN] + [('u', float(z0), u) for u in LEN]
    sp += [('psi', None, u) for u in ANG]
    sp += [(f, None, u) for f in ('sig', 'tau') for u in STR]
    sp += [(f, None, u) for f in ('Gi', 'Gii') for u in ENE]
    return sp


def solved(R, rng, ctx, num=12):
    """Some solved configuration: matrix of solutions with masked positions."""
    u = rng.random()
    if u < 0.25:
        cfg, geo, _ = gen.contact(rng)
        m = make(R, 1, choice(rng, NORMAL_SAW), cfg, td=True)
        sg, ph = segs_of(R.segments(1, **geo)), geo['phi']
    elif u < 0.5:
        system = choice(rng, SAW)
        m = make(R, 1, system, gen.config(rng))
        g = gen.saw(rng, system)
        sg, ph = segs_of(R.segments(1, **g)), g['phi']
    elif u < 0.7:
        m = make(R, 1, 'skier', gen.config(rng))
        g = gen.skier(rng)
        sg, ph = segs_of(R.segments(1, **g)), g['phi']
    else:
        m = make(R, 1, 'skiers', gen.config(rng))
        n = gen.concretize(rng, ctx.pattern(rng, 'skiers'), outer=(4000, 15000))
        ph = gen.phi(rng)
        sg = segs_of(R.segments(1, phi=ph, **n))
    C = m.assemble_and_solve(phi=ph, **sg)
    x, z, xb = m.rasterize_solution(C=C, phi=ph, num=num, **sg)
    return m, C, sg, ph, x, z, xb


def fields(R, rng, ctx):
    m, C, sg, ph, x, z, xb = solved(R, rng, ctx)
    R.fields(1, z, field_specs(rng, m))
    R.fields(1, wild(rng), field_specs(rng, m))
    for name in ('tau', 'sig'):
        for drop in (None, True, False):
            R.getter(1, name, xb, z, unit=choice(rng, (None,) + STR), drop=drop)
    for loc in (None, 'top', 'mid', 'bot'):
        R.getter(1, 'u', choice(rng, [x, xb]), z, loc=loc, unit=choice(rng, (None,) + LEN))
    R.getter(1, 'w', choice(rng, [x, xb]), z, unit=choice(rng, (None,) + LEN))
    R.getter(1, 'psi', choice(rng, [x, xb]), z, unit=choice(rng, (None,) + ANG))


# ----------------------------------------------------------- C12, C13 energy
def gdif(R, rng, ctx, rep=False):
    u = rng.random()
    if u < 0.3:
        cfg, geo, _ = gen.contact(rng)
        m = make(R, 1, choice(rng, NORMAL_SAW), cfg, td=True)
        sg, ph = segs_of(R.segments(1, **geo)), geo['phi']
    else:
        system = choice(rng, ('skiers', 'skiers', 'pst-', '-pst', 'vpst-', '-vpst', 'skier'))
        m = make(R, 1, system, gen.config(rng))
        ph = gen.phi(rng)
        if system == 'skier':
            s = R.segments(1, **dict(gen.skier(rng), phi=ph))
            sg = segs_of(s, choice(rng, ['crack', 'crack', 'nocrack']))
        else:
            pat = tipfree(ctx.pattern(rng, system))
            n = gen.concretize(rng, pat, outer=(4000, 15000) if system == 'skiers' else None)
            if system == 'skiers':
                sg = segs_of(R.segments(1, phi=ph, **n))
            else:
                R.segments(1, L=float(n['li'].sum()), a=0.0, phi=ph)
                sg = part(n)
    C = m.assemble_and_solve(phi=ph, **sg)
    for unit in (None, choice(rng, ENE)):
        R.gdif(1, ph, C, sg, unit, rep=rep)


def tipfree(pat):
    """No skier exactly at a crack tip (the traction would be ambiguous)."""
    out = []
    for k, s in enumerate(pat):
        s = dict(s)
        if k + 1 < len(pat) and s['b'] != pat[k + 1]['b']:
            s['s'] = False
        out.append(s)
    # neighbouring empty segments share the position
    for k in range(len(out) - 1):
        if out[k]['z'] or out[k + 1]['z']:
            out[k]['s'] = False
            if k:
                out[k - 1]['s'] = False
            if k + 1 < len(out):
                out[k + 1]['s'] = False
    out[-1]['s'] = False
    return out


def ginc(R, rng, ctx, rep=False):
    system = choice(rng, ('skiers', 'skiers', 'pst-', '-pst', 'vpst-', '-vpst', 'skier'))
    m = make(R, 1, system, gen.config(rng))
    ph = gen.phi(rng)
    if system == 'skier':
        g = dict(gen.skier(rng), phi=ph)
        both = R.segments(1, **g)['both']
    elif rng.random() < 0.4 and system in SAW:
        g = dict(gen.saw(rng, system), phi=ph)
        both = R.segments(1, **g)['both']
    else:
        pat = ctx.pattern(rng, system, need='advance')
        n = gen.concretize(rng, pat, outer=(4000, 15000) if system == 'skiers' else None,
                           inner=(20, 1500))
        if system == 'skiers':
            both = R.segments(1, phi=ph, **n)['both']
        else:
            R.segments(1, L=float(n['li'].sum()), a=0.0, phi=ph)
            both = n
    if rng.random() < 0.12:         # parts that are bedded again, or no news at all
        k0, ki = np.array(both['k0']), np.array(both['ki'])
        if rng.random() < 0.3:
            k0 = ki.copy()
        for k in range(1, len(k0) - 1):
            if ki[k] and rng.random() < 0.6:
                k0[k] = False
        if np.asarray(both['li'], float)[k0].sum() >= 50:    # something has to carry the slab
            both = dict(both, k0=k0)
    base = {'li': both['li'], 'mi': both['mi']}
    C1 = m.assemble_and_solve(phi=ph, ki=both['ki'], **base)
    C0 = m.assemble_and_solve(phi=ph, ki=both['k0'], **base)
    R.ginc(1, ph, C0, C1, both, rep=rep)


def ginc_mean(R, rng, ctx):
    """Incremental rate against the mean of the differential rate."""
    system = choice(rng, ('pst-', '-pst', 'vpst-', '-vpst', 'skier'))
    cfg = gen.config(rng)
    m = make(R, 1, system, cfg)
    ph = gen.phi(rng)
    if system == 'skier':
        g = dict(gen.skier(rng), phi=ph)
        g['a'] = r3(rng.uniform(20, 1500))
        g['m'] = choice(rng, [0.0, r3(rng.uniform(20, 120))])
    else:
        g = dict(gen.saw(rng, system), phi=ph)
    both = R.segments(1, **g)['both']
    base = {'li': both['li'], 'mi': both['mi']}
    C1 = m.assemble_and_solve(phi=ph, ki=both['ki'], **base)
    C0 = m.assemble_and_solve(phi=ph, ki=both['k0'], **base)
    # crack growth from nothing to a
    mean = []
    nodes, wts = np.polynomial.legendre.leggauss(16)
    for x, w in zip(nodes, wts):
        ai = g['a']*(1 + x)/2
        s = R.models[1].calc_segments(**dict(g, a=ai))['crack']
        C = m.assemble_and_solve(phi=ph, **s)
        G = m.gdif(C, ph, **s, unit='kJ/m^2')
        mean.append([w/2, G[1], G[2]])
    R.segments(1, **g)
    R.ginc(1, ph, C0, C1, both, loaded=True, mean=mean)


def potential(R, rng, ctx):
    """Stored energy and work of the loads of a slope-normal saw test."""
    system = choice(rng, NORMAL_SAW)
    if rng.random() < 0.5:
        cfg, geo, _ = gen.contact(rng)
        m = make(R, 1, system, cfg, td=True)
    else:
        geo = gen.saw(rng, system)
        m = make(R, 1, system, gen.config(rng))
    s = R.segments(1, **geo)
    sg = segs_of(s, 'nocrack' if rng.random() < 0.15 and m.mode != 'C' else 'crack')
    C = m.assemble_and_solve(phi=geo['phi'], **sg)
    rate = np.abs(mini.modes(R.bm(1), 1.0)[0]).max()
    num = int(max(2000, geo['L']*rate/0.1))
    if num > 12000:
        return                   # a very flexible slab would need too many points
    def uneven(n):               # the raster rounds the points per segment up
        x = np.outer([n, 2*n], [v/sum(sg['li']) for v in sg['li'] if v > 0])
        return ((np.ceil(x) - x)/x).max()
    num = min(range(num, num + 200), key=uneven)
    if uneven(num) > 2e-3:
        return
    R.potential(1, geo['phi'], C, sg, geo['L'], num)


# ------------------------------------------------------ C14, C15 slab stresses
def stress_points(R, rng, ctx, bedded=True, n=4):
    m, C, sg, ph, *_ = solved(R, rng, ctx)
    cols = []
    js = [j for j in range(len(sg['li'])) if sg['li'][j] > 0 and bool(sg['ki'][j]) == bedded]
    if not js:
        return m, ph, None
    for _ in range(n):
        j = choice(rng, js)
        x = float(sg['li'][j]*choice(rng, [0.0, 1.0, rng.random()]))
        cols.append(R.zat(m, C, sg['li'], sg['ki'], ph, j, x)[0])
    return m, ph, np.array(cols).T.copy()


def mesh_size(rng, h):
    return float(choice(rng, [None, 2.0, 1.0, r3(rng.uniform(0.5, 10)), r3(h/7), 500.0])
                 or 2.0)


def stress(R, rng, ctx):
    m, ph, Z = stress_points(R, rng, ctx, True, 3)
    h = float(m.h)
    dz = choice(rng, [2.0, r3(max(h/60, rng.uniform(0.5, 10))), r3(h/40), r3(h/7), 500.0])
    dz = max(dz, h/150)
    if Z is not None:
        R.stress(1, ph, Z, None if rng.random() < 0.1 and h < 300 else dz,
                 choice(rng, [None, 'kPa', 'MPa']), True)
    W = wild(rng, 2)
    R.stress(1, ph, W, max(dz, h/60), choice(rng, STR), True)


def stress_free(R, rng, ctx):
    m, ph, Z = stress_points(R, rng, ctx, False, 3)
    if Z is not None:
        R.stress(1, ph, Z, max(2.0, float(m.h)/60), choice(rng, [None, 'kPa', 'MPa']), False)


def principal(R, rng, ctx):
    m, ph, Z = stress_points(R, rng, ctx, bool(rng.random() < 0.8), 4)
    if Z is None:
        Z = wild(rng, 4)
    dz = 2.0 if rng.random() < 0.3 and m.h < 400 else max(2.0, float(m.h)/60)
    for unit in STR:
        for val in ('max', 'min'):
            R.principal_slab(1, ph, Z, dz, unit, val, False)
            R.principal_weak(1, Z, unit, val, False)
        R.principal_slab(1, ph, Z, dz, unit, 'max', True)
        R.principal_weak(1, Z, unit, 'min', True,
                         sc=choice(rng, [None, r3(rng.uniform(0.5, 6))]))
    R.principal_weak(1, wild(rng, 5), choice(rng, STR), choice(rng, ['min', 'max']), False)
    reject_component(R, 1, ph, Z)


def reject_component(R, i, ph, Z):
    m = R.models[i]
    for v in ('maximum', 'I', '', 'Max', 'MIN', 'mi', 'abs', 1):
        R.reject(i, 'component', 'ValueError', lambda: m.principal_stress_slab(Z, ph, val=v), args=(Z,))
        R.reject(i, 'component', 'ValueError', lambda: m.principal_stress_weaklayer(Z, val=v), args=(Z,))
    R.reject(i, 'normalize', 'ValueError',
             lambda: m.principal_stress_slab(Z, ph, val='min', normalize=True), args=(Z,))
    R.reject(i, 'normalize', 'ValueError',
             lambda: m.principal_stress_weaklayer(Z, val='max', normalize=True), args=(Z,))


# ----------------------------------------------------- C16, C17 touchdown
def touchdown(R, rng, ctx):
    cfg, geo, (a1, a2) = gen.contact(rng)
    system = choice(rng, NORMAL_SAW)
    m = make(R, 1, system, cfg, td=True)
    R.segments(1, **geo)
    R.transitions(1, geo, float(m.td), m.mode)
    # close to the transitions, and another inclination of the same column
    for a in (a1*(1 - 1e-6), a1*(1 + 1e-6), a2*(1 - 1e-6), a2*(1 + 1e-3)):
        if rng.random() < 0.25:
            g = dict(geo, a=float(a))
            R.segments(1, **g)
            R.transitions(1, g, float(m.td), m.mode)
    if rng.random() < 0.2:          # exactly there
        g = dict(geo, a=float(choice(rng, [m.calc_a1, m.calc_a2])()))
        R.segments(1, **g)
        R.transitions(1, g, float(m.td), m.mode)
    if rng.random() < 0.5:
        R.new(2, choice(rng, SAW), laydef('default', [[240, 200]]), td=False)
        R.segments(2, **gen.saw(rng, 'pst-'))
    if rng.random() < 0.5:
        near_twin(R, rng, 3, system, cfg, cfg['weak'] or (0.25, 0.25, 30.0), geo)
    if rng.random() < 0.5:
        g = dict(geo, phi=-geo['phi'])
        R.segments(1, **g)
        R.transitions(1, g, float(m.td), m.mode)
    if rng.random() < 0.3:
        lay = cfg['lay']
        R.load(1, R.meta[1]['p'])
        R.segments(1, **geo)
        R.transitions(1, geo, float(m.td), m.mode)


def near_twin(R, rng, i, system, cfg, weak, geo):
    """Another object which differs from an existing one in a single respect."""
    from rec import slab_of
    E, nu, t = weak
    for _ in range(10):
        nu2 = r3(rng.uniform(0, 0.45))
        w2 = choice(rng, [(E*(1 - nu2**2)/(1 - nu**2), nu2, t), (E*(1 + nu2)/(1 + nu), nu2, t),
                          (E*1.07, nu, t*1.07), (E, nu2, t)])
        bm = mini.Beam(slab_of(cfg['lay']), w2, cfg.get('p') or 0.0)
        with np.errstate(all='ignore'):
            tr = mini.transitions(bm, geo['phi'], geo['L'], geo['cf'])
        if tr and tr[1] < 0.9*geo['L'] and tr[0] > 5e-3*geo['L'] and tr[2] > 0.02*w2[2] \
                and geo['a'] < 4*tr[1] and min(abs(geo['a']/tr[0] - 1), abs(geo['a']/tr[1] - 1)) > 1e-3:
            m = make(R, i, system, dict(cfg, weak=w2), td=True)
            R.segments(i, **geo)
            R.transitions(i, geo, float(m.td), m.mode)
            return


def touchdown_edge(R, rng, ctx):
    """Fixed column with a rested segment of less than a thousandth millimetre."""
    R.new(1, 'pst-', laydef('default', [[240, 200]]), td=True)
    R.segments(1, L=6000., a=2084.494926, phi=0., cf=0.5, ratio=1000.)


def springs(R, rng, ctx):
    if rng.random() < 0.5:
        cfg, geo, _ = gen.contact(rng)
        make(R, 1, choice(rng, NORMAL_SAW), cfg, td=True)
    else:                   # any slab on any weak layer, collapsed to any degree
        cfg = gen.config(rng)
        make(R, 1, choice(rng, SAW), cfg)
        geo = dict(gen.saw(rng, 'pst-'), ratio=choice(rng, [
            1, 1000.0, r3(rng.uniform(1, 3)), r3(np.exp(rng.uniform(0, np.log(3000))))]))
    R.segments(1, **geo)
    for rested in (False, True):
        for dof in ('rot', 'trans'):
            L = r3(np.exp(rng.uniform(np.log(20), np.log(20000))))
            R.subst(1, L, rested, dof, geo['ratio'])
    if rng.random() < 0.5:                       # independent of the loads
        R.load(1, gen.surface(rng, 0.0))
        R.subst(1, L, True, 'rot', geo['ratio'])
        R.subst(1, L, False, 'trans', geo['ratio'])


# ------------------------------------------------------------ C18 rejections
REJECTS = ('nofound', 'lengths', 'outer', 'system', 'profile', 'pos', 'component', 'unit',
           'field', 'normalize', 'dof', 'noroot')


def do_reject(R, rng, i, kind, plots=None):
    """One invalid request to object i."""
    m = R.models[i]
    system = R.meta[i]['sys']
    n = int(rng.integers(1, 4))
    li = np.round(rng.uniform(100, 3000, n), 1)
    Z = wild(rng, 3)
    if kind == 'nofound':
        sg = {'li': li, 'mi': np.zeros(n - 1), 'ki': np.full(n, False)}
        R.reject(i, kind, 'ValueError', lambda: m.assemble_and_solve(phi=10, **sg), args=(sg,))
    elif kind == 'lengths':
        k = int(rng.integers(9))
        nn = n + 1
        li = np.round(rng.uniform(100, 3000, nn), 1)
        mi, ki = np.zeros(nn - 1), np.full(nn, True)
        # every disagreement of the three counts
        if k == 0:
            ki = ki[:-1]
        elif k == 1:
            mi = np.zeros(nn)
        elif k == 2:
            li = li[:-1]
        elif k == 3:
            ki = np.append(ki, True)
        elif k == 4:
            mi = mi[:-1]
        elif k == 5:
            li, ki = np.append(li, 500.), np.append(ki, True)
        elif k == 6:
            li, mi = np.append(li, 500.), np.append(mi, 80.)
        elif k == 7:
            ki, mi = np.append(ki, True), np.append(mi, 0.)
        else:
            mi = np.append(mi, [70., 0.])
        if nn > 2 and rng.random() < 0.3 and len(ki) > 2:
            ki[1] = False
        if rng.random() < 0.3:
            li, mi, ki = list(li), list(mi), list(ki)
        sg = {'li': li, 'mi': mi, 'ki': ki}
        R.reject(i, kind, 'ValueError', lambda: m.assemble_and_solve(phi=-5, **sg), args=(sg,))
    elif kind == 'outer' and system in INF:
        nn = n + 1
        ki = np.full(nn, True)
        ki[0 if rng.random() < 0.5 else -1] = False
        sg = {'li': np.full(nn, 6000.), 'mi': np.zeros(nn - 1), 'ki': ki}
        R.reject(i, kind, 'ValueError', lambda: m.assemble_and_solve(phi=0, **sg), args=(sg,))
    elif kind == 'system':
        from_cls = R.weac.Layered
        s = choice(rng, ('pst', 'skierss', 'PST-', '', 'vpst', 'rot2', 'pst--', '-pst-', 'ski',
                         'Skier', 'rested', 'pst_', 'xvpst-'))
        def bad():
            from_cls(system=s).calc_segments(L=2000, a=300)
        R.reject(i, kind, 'ValueError', bad)
    elif kind == 'profile':
        s = choice(rng, ('g', 'softt', 'x', 'layer z', 'A-', 'i', 'ab', 'so', 'mediumhard', 'com',
                         'profile 1', 'a.', 'h_'))
        R.reject(i, kind, 'ValueError', lambda: R.weac.Layered('pst-', s))
        R.reject(i, kind, 'ValueError', lambda: m.set_beam_properties(s))
        R.reject(i, kind, 'ValueError', lambda: R.tools.load_dummy_profile(s))
    elif kind == 'pos':
        s = choice(rng, ('middle', 'x', 'L', 'rechts', '', 'e', 'lef', 'ight', 'R', 'center'))
        z = Z[:, [0]]
        R.reject(i, kind, 'ValueError', lambda: m.eqs(z, z, True, s), args=(z,))
    elif kind == 'component':
        reject_component(R, i, 12.0, Z)
    elif kind == 'normalize':
        R.reject(i, kind, 'ValueError',
                 lambda: m.principal_stress_slab(Z, 3.0, val='min', normalize=True), args=(Z,))
    elif kind == 'unit':
        bad = choice(rng, ('furlong', 'bar', 'GPa', 'N/m^2', 'J', '', 'kilo', 'turns', None, 1, 'mmm',
                           'aP', 'J/m', 'a'))
        for fn in ('w', 'sig', 'tau', 'Gi', 'Gii', 'psi'):
            R.reject(i, 'unit ' + fn, 'any', lambda: getattr(m, fn)(Z, unit=bad), args=(Z,))
        R.reject(i, 'unit u', 'any', lambda: m.u(Z, z0=0, unit=bad), args=(Z,))
        for fn in ('Sxx', 'Txz', 'Szz'):
            R.reject(i, 'unit ' + fn, 'any', lambda: getattr(m, fn)(Z, 0.0, unit=bad), args=(Z,))
        R.reject(i, 'unit tensile', 'any',
                 lambda: R.tools.tensile_strength_slab(np.array([200.]), unit=bad))
        R.reject(i, 'unit principal', 'any',
                 lambda: m.principal_stress_slab(Z, 0.0, unit=bad), args=(Z,))
        x = np.linspace(0, 1000, 3)
        for fn in ('get_weaklayer_shearstress', 'get_weaklayer_normalstress',
                   'get_slab_displacement', 'get_slab_deflection', 'get_slab_rotation'):
            R.reject(i, 'unit ' + fn, 'any', lambda: getattr(m, fn)(x, Z, unit=bad), args=(x, Z))
    elif kind == 'field' and plots is not None:
        x = np.linspace(0, 1000, 3)
        R.reject(i, kind, 'ValueError',
                 lambda: plots.plot.deformed(m, x, x.copy(), Z, 5.0, field=choice(rng, ('Syy', 'W', 'uu', '', 'prin', 'tau')), dz=50), args=(x, Z))
        plots.clean()
    elif kind == 'dof':
        # not specified to be rejected, must leave the model as it was
        if m.ratio:
            R.reject(i, kind, 'none', lambda: m.substitute_stiffness(1000., 'rested', 'turn'))
        for L in (float('nan'), 'long', None):
            R.reject(i, kind, 'none', lambda: m.substitute_stiffness(
                L, choice(rng, ('rested', 'supported')) if m.ratio else 'supported',
                choice(rng, ('rot', 'trans'))))
    elif kind == 'noroot' and R.meta[i]['td']:
        # column too short to touch down: fails or not, the model must survive
        bm = R.bm(i)
        R.reject(i, kind, 'none', lambda: m.calc_segments(
            L=float(bm.h)/10, a=float(bm.h)/50, phi=0.0, cf=0.9))
        return 'resegment'
    return None


def rejections(R, rng, ctx):
    system = choice(rng, SAW + INF)
    cfg = gen.config(rng)
    make(R, 1, system, cfg)
    kinds = list(rng.permutation(REJECTS))[:6]
    if system in INF:
        kinds.append('outer')
    ph, s, g = None, None, None
    for k in kinds:
        do_reject(R, rng, 1, str(k), ctx.plots)
        # valid calls are still answered correctly
        if system == 'skiers':
            n = gen.concretize(rng, ctx.pattern(rng, 'skiers'), outer=(4000, 12000))
            ph = gen.phi(rng)
            s = R.segments(1, phi=ph, **n)
        elif system == 'skier':
            g = gen.skier(rng)
            s, ph = R.segments(1, **g), g['phi']
        else:
            g = gen.saw(rng, system)
            s, ph = R.segments(1, **g), g['phi']
        C = R.solve(1, ph, segs_of(s), rng, nsamp=2)
    num = gen.raster_num(rng, s['crack']['li'])
    if num:
        R.raster(1, ph, C, segs_of(s), num)


def valid(R, rng, ctx):
    """Every system type answers valid requests, all kinds of queries."""
    m, C, sg, ph, x, z, xb = solved(R, rng, ctx)
    both_queries(R, rng, ctx, 1, C, sg, ph)


def both_queries(R, rng, ctx, i, C, sg, ph, rep=True):
    m = R.models[i]
    num = gen.raster_num(rng, sg['li'], 4, 25)
    if num:
        R.raster(i, ph, C, sg, num, rep=rep)
    R.gdif(i, ph, C, sg, choice(rng, (None,) + ENE), rep=rep)
    x, z, xb = m.rasterize_solution(C=C, phi=ph, num=9, **sg)
    R.fields(i, z, field_specs(rng, m))
    R.getter(i, 'tau', xb, z, unit='kPa')
    R.getter(i, 'u', x, z, loc='top')
    R.principal_weak(i, z, 'kPa', 'min', False)


# ------------------------------------------------------------------ C19 tools
def tools(R, rng, ctx):
    T = R.tools
    from rec import enc
    rho = np.sort(rng.uniform(20, 916, 6))
    a = [r3(rng.uniform(1, 10)), r3(rng.uniform(2, 6))]
    r0 = choice(rng, [917.0, r3(rng.uniform(500, 1000))])
    none = {'par': [], 'unit': ''}
    def law(fn, call, par=(), unit=''):
        R.tool(fn, lambda: call(rho), lambda r: {
            'rho': enc(rho), 'par': enc(list(par)) if len(par) else [], 'unit': unit,
            'ret': enc(np.ravel(r))}, args=(rho,))
        R.tool(fn, lambda: [call(float(v)) for v in rho], lambda r: {
            'rho': enc(rho), 'par': enc(list(par)) if len(par) else [], 'unit': unit,
            'ret': enc(np.ravel(r))})
    law('bergfeld', T.bergfeld, (917., 6.5, 4.4))
    law('bergfeld', lambda v: T.bergfeld(v, r0, a[0], a[1]), (r0, a[0], a[1]))
    law('bergfeld', lambda v: T.bergfeld(v, C0=a[0], C1=a[1]), (917., a[0], a[1]))
    law('gerling', T.gerling, (6.0, 4.6))
    law('gerling', lambda v: T.gerling(v, C0=a[0], C1=a[1]), (a[0], a[1]))
    law('scapozza', T.scapozza)
    law('tensile', T.tensile_strength_slab, (), 'kPa')
    law('tensile', lambda v: T.tensile_strength_slab(v, unit='MPa'), (), 'MPa')
    from rec import PROFILES
    for nm in rng.permutation(PROFILES):
        nm = str(nm)
        key = choice(rng, [nm, nm.upper(), nm.title()])
        def post(r):
            out = {'name': nm, 'layers': enc(r[0]), 'E': enc(r[1])}
            r[0][...] = -1.0            # the caller may do what it likes
            r[1][...] = -1.0
            return out
        R.tool('profile', lambda: T.load_dummy_profile(key), post)
    for _ in range(3):
        lay = np.array(gen.rows(rng, 7))
        R.tool('cog', lambda: T.calc_center_of_gravity(lay),
               lambda r: {'layers': enc(lay), 'ret': enc(r)}, args=(lay,))
        slab = np.array(mini_slab(lay))
        ph = gen.phi(rng)
        R.tool('wedge', lambda: T.calc_vertical_bc_center_of_gravity(slab, ph),
               lambda r: {'layers': enc(lay), 'phi': enc(ph), 'ret': enc(r)}, args=(slab,))


def mini_slab_any(lay):
    from rec import slab_of
    return slab_of(lay)


def mini_slab(lay):
    from rec import slab_of
    return slab_of(laydef('list', lay))


def tool_touchdown(R, rng, ctx):
    from rec import enc, layenc, slab_of
    T = R.tools
    for _ in range(200):
        k = rng.integers(4)
        if k == 0:
            lay, arg = laydef('default', [[240, 200]]), choice(rng, [None, []])
        elif k == 1:
            nm = choice(rng, ('a', 'b', 'c', 'd', 'e', 'f', 'h', 'soft', 'medium', 'hard', 'comp'))
            lay = laydef('profile', nm, nm)
            arg = choice(rng, [nm, 'profile ' + nm.upper()])
        else:
            r = gen.rows(rng, 4)
            arg = choice(rng, [r, np.array(r), np.array([[int(x) for x in q] for q in r])])
            lay = laydef('list', arg, C0=r3(rng.uniform(4, 9)), C1=r3(rng.uniform(3.8, 5)))
        C0, C1 = (6.5, 4.4) if lay['kind'] == 'default' and rng.random() < 0.5 else (lay['C0'], lay['C1'])
        lay = dict(lay, C0=C0, C1=C1)
        Ewl, t, ph = r3(rng.uniform(0.05, 2)), r3(rng.uniform(5, 50)), gen.phi(rng)
        bm = mini.Beam(slab_of(lay), (Ewl, 0.25, t))
        with np.errstate(all='ignore'):
            tr = mini.transitions(bm, ph, 1e5, 0.5)
        if tr and tr[0] > 150 and tr[1] < 0.15*1e5 and tr[2] > 0.02*t:
            break
    else:
        return
    kw = {'C0': C0, 'C1': C1, 'Ewl': Ewl, 't': t, 'phi': ph}
    def post(r):
        a = 5*float(r[0])
        k1 = [mini.spring(bm, 1, 1e5 - x, d) for x in (float(r[0]), float(r[1]), a)
              for d in ('rot', 'trans')]
        kr = mini.spring(bm, 1000., a - float(r[2]), 'rot')
        return {'lay': layenc(lay), 'Ewl': enc(Ewl), 't': enc(t), 'phi': enc(ph),
                'ret': enc([float(v) for v in r]), 'k1': enc(k1 + [kr])}
    R.tool('touchdown', lambda: T.touchdown_distance(layers=arg, **kw), post, args=(arg,))
    # and again, also for the other way of passing the same layers
    if lay['kind'] == 'list':
        other = [list(map(float, q)) for q in np.asarray(arg)]
        R.tool('touchdown', lambda: T.touchdown_distance(layers=other, **kw), post, args=(other,))


# -------------------------------------------------- C01, C02: call histories
class Tokens:
    """Numbers for the tokens of a history, such that contact exists for all."""

    def __init__(self, rng, near=False):
        for _ in range(5000):
            self.b, self.w = {}, {}
            for k in ('b1', 'b2', 'b3'):
                self.b[k] = gen.layers(rng, kinds=('list', 'list', 'profile'), nmax=4)
            self.b['b1'] = gen.layers(rng, kinds=('list', 'profile', 'default'), plain=True)
            self.w = {'w0': (0.25, 0.25, 30.0), 'w1': gen.weak(rng, 12, 50),
                      'w2': gen.weak(rng, 12, 50)}
            self.p = {'p0': 0.0, 'p1': gen.surface(rng, 0)}
            if self.p['p1'] > 1:
                continue
            # near twins: whatever is remembered by some of the parameters gets mixed up
            if rng.random() < 0.5:
                E, nu, t = self.w['w1']
                nu2 = r3(rng.uniform(0, 0.45))
                self.w['w2'] = choice(rng, [
                    (E*(1 - nu2**2)/(1 - nu**2), nu2, t), (E, nu2, t), (E, nu, r3(t*1.1)),
                    (r3(E*1.3), nu, t), (E*(1 + 10**rng.uniform(-4.5, -2)), nu, t),
                    (E, nu, t*(1 + 10**rng.uniform(-4.5, -2)))])
            if rng.random() < 0.5 and self.b['b2']['kind'] == 'list':
                b = self.b['b2']
                flip = np.asarray(b['arg'], float)[::-1]
                self.b['b3'] = dict(b, **choice(rng, [
                    {'arg': flip}, {'nu': r3(rng.uniform(0.05, 0.45)), 'law': False},
                    {'C0': r3(b['C0']*1.2), 'law': False}, {'C1': r3(b['C1'] + 0.1), 'law': False}]))
            if near:
                self.near_slabs(rng)
            self.g = {}
            L = r3(np.exp(rng.uniform(np.log(4000), np.log(30000))))
            for k in ('g1', 'g2', 'g3'):
                self.g[k] = {'L': L if rng.random() < 0.5 else r3(L*rng.uniform(0.7, 1.3)),
                             'a': r3(L*choice(rng, [rng.uniform(0.01, 0.1), rng.uniform(0.05, 0.4),
                                                    rng.uniform(0.2, 0.6)])),
                             'phi': gen.phi(rng), 'cf': choice(rng, [0.5, r3(rng.uniform(0.3, 0.7))]),
                             'ratio': choice(rng, [1000.0, r3(rng.uniform(10, 2000))])}
            if rng.random() < 0.5:
                f = choice(rng, ('L', 'a', 'phi', 'cf', 'ratio'))
                self.g['g2'] = dict(self.g['g1'], **{f: self.g['g2'][f]})
            if rng.random() < 0.3:
                self.g['g3'] = dict(self.g['g1'], phi=-self.g['g1']['phi'])
            if near:
                self.between(rng)
            if self.ok():
                break
        else:
            raise RuntimeError('no tokens')
        self.x = {k: None for k in self.g}
        self.dz = max(2.0, max(sum(r[1] for r in mini_slab_any(v)) for v in self.b.values())/20)
        self.seed = int(rng.integers(1 << 30))

    def near_slabs(self, rng):
        """Slabs that agree in everything but one aspect."""
        n = int(rng.integers(2, 5))
        h = gen.rough(rng.uniform(30, 200, n), 1)
        rho = gen.rough(rng.uniform(100, 450, n), 1)
        if rng.random() < 0.5:
            h[:] = h[0]
        base = np.column_stack([rho, h])
        same = {'C0': 6.5, 'C1': 4.4}
        def one():
            a, kw = base.copy(), {}
            k = int(rng.integers(10))
            if k == 9:
                a[int(rng.integers(n)), 0] *= 1 + 10**rng.uniform(-4.5, -2)
            elif k <= 1:
                a = a[::-1]
            elif k == 2:
                a[:, 0] = rng.permutation(a[:, 0])
            elif k == 3:
                a[:, 1] = a[::-1, 1]
            elif k == 4:
                a[int(rng.integers(n)), 0] += 25.
            elif k == 5:
                a[0, 1], a[-1, 1] = a[0, 1] + 5., a[-1, 1] - 5.
            else:
                kw = [{'C0': 7.5}, {'C1': 4.6}, {'nu': 0.35}][k - 6]
            return a.copy(), kw
        self.b['b1'] = laydef('list', choice(rng, [base.copy(), base.tolist()]))
        for b in ('b2', 'b3'):
            a, kw = one()
            self.b[b] = laydef('list', a, **dict(kw, law=not kw))

    def between(self, rng):
        """Cracks of different stages on slabs and weak layers which differ little."""
        from rec import slab_of
        b, w, p = list(self.b), list(self.w), list(self.p)
        for g in self.g.values():
            # two configurations which differ in one respect only
            x = ['b1', choice(rng, ['w0', choice(rng, w)]), choice(rng, p)]
            y = list(x)
            k = choice(rng, [0, 0, 1, 2])
            y[k] = choice(rng, [v for v in (b, w, p)[k] if v != x[k]])
            with np.errstate(all='ignore'):
                tr = [mini.transitions(mini.Beam(slab_of(self.b[v[0]]), self.w[v[1]], self.p[v[2]]),
                                       g['phi'], g['L'], g['cf']) for v in (x, y)]
            if None in tr:
                return
            k = int(rng.integers(2))
            if abs(tr[0][k]/tr[1][k] - 1) > 4e-3 and rng.random() < 0.9:
                g['a'] = float(np.round((tr[0][k] + tr[1][k])/2, 3))

    def ok(self):
        from rec import slab_of
        with np.errstate(all='ignore'):
            for lay in self.b.values():
                for w in self.w.values():
                    for p in self.p.values():
                        bm = mini.Beam(slab_of(lay), w, p)
                        for g in self.g.values():
                            tr = mini.transitions(bm, g['phi'], g['L'], g['cf'])
                            if tr is None or tr[1] > 0.95*g['L'] or tr[2] < 0.02*w[2]:
                                return False
                            # keep clear of the transitions themselves
                            if min(abs(g['a']/tr[0] - 1), abs(g['a']/tr[1] - 1)) < 1e-3:
                                return False
                            if g['a'] > 5*tr[1] or tr[0] < 4e-3*g['L']:
                                return False
        return True


def history(R, rng, ctx, rep=False, twins=True, churn=False):
    """Replay a behaviour generated by WeacGen."""
    tok = ctx.tokens(rng, churn)
    hist = ctx.history(rng)
    sols = {}
    lastg, seg = {}, {}
    lawful = {}
    upd, par = {}, {}
    for o in hist:
        op, i = o['op'], o.get('i')
        if op == 'new':
            lay = tok.b[o['b']]
            if lay['law']:
                R.new(i, o['sys'], lay, o['td'])
            else:
                R.new(i, o['sys'], laydef('default', [[240, 200]]), o['td'])
                R.beam(i, lay, update=True)
            par[i] = {'sys': o['sys'], 'td': o['td'], 'b': o['b'], 'w': 'w0', 'p': 'p0'}
            upd[i] = True
        elif op == 'found':
            R.foundation(i, tok.w[o['w']], update=o['u'])
            par[i]['w'], upd[i] = o['w'], o['u']
        elif op == 'beam':
            R.beam(i, tok.b[o['b']], update=o['u'])
            par[i]['b'], upd[i] = o['b'], o['u']
        elif op == 'load':
            R.load(i, tok.p[o['p']])
            par[i]['p'] = o['p']
        elif op == 'clone':
            j = o['j']
            R.clone(j, i)
            par[i], upd[i] = dict(par[j]), upd[j]
            if j in seg:
                seg[i], lastg[i] = seg[j], lastg[j]
        elif op == 'turn':
            R.retarget(i, o['sys'], o['td'])
            par[i].update(sys=o['sys'], td=o['td'])
        elif op == 'recalc':
            R.recalc(i)
            upd[i] = True
        elif op == 'seg':
            lastg[i] = o['g']
            seg[i] = do_segments(R, rng, i, tok, o['g'])
            if churn and par[i]['td'] and par[i]['sys'] in NORMAL_SAW:
                m = R.models[i]
                R.transitions(i, R.meta[i]['geo'], float(m.td), m.mode)
        elif op == 'subst':
            g = R.meta[i]['geo']
            R.subst(i, r3(np.exp(rng.uniform(np.log(50), np.log(8000)))), o['r'], o['d'], g['ratio'])
        elif op == 'trans':
            m = R.models[i]
            g = R.meta[i]['geo']
            R.transitions(i, g, float(m.td), m.mode)
        elif op == 'solve':
            m = R.models[i]
            g = R.meta[i]['geo']
            sg = segs_of(seg[i], 'crack' if o['c'] else 'nocrack')
            kr = 0.0
            if m.mode == 'C':
                kr = mini.spring(R.bm(i), g['ratio'], g['a'] - float(m.td), 'rot')
            C = R.solve(i, g['phi'], sg, rng, nsamp=2, kr=kr, rep=rep)
            sols[o['s']] = (C, sg, g['phi'])
        elif op == 'query':
            if o['s'] in sols:
                C, sg, ph = sols[o['s']]
                if churn:       # the same questions in every round
                    rng = np.random.default_rng(tok.seed)
                query(R, rng, ctx, i, o['q'], C, sg, ph, seg.get(i), rep, tok.dz if churn else None)
        elif op == 'reject':
            if o['r'] == 'noroot' and not upd[i]:   # segments need an up-to-date object
                R.recalc(i)
                upd[i] = True
            if do_reject(R, rng, i, o['r'], ctx.plots) == 'resegment' and i in seg:
                seg[i] = do_segments(R, rng, i, tok, lastg[i])
    if twins:
        for i in sorted(par):
            twin(R, rng, tok, i, par[i], upd[i])


def do_segments(R, rng, i, tok, gname):
    g = dict(tok.g[gname])
    system = R.meta[i]['sys']
    if system == 'skiers':
        n = {'li': np.array([6000., g['a']/4, g['a']/5, 7000.]), 'mi': np.array([0., 80., 0.]),
             'ki': np.array([True, False, False, True]), 'k0': np.array([True, True, True, True])}
        return R.segments(i, phi=g['phi'], **n)
    if system == 'skier':
        return R.segments(i, m=75.0, **dict(g, L=g['L'] + 15000))
    return R.segments(i, **g)


def twin(R, rng, tok, i, par, upd):
    """The same call on the old object and on a fresh one."""
    if not upd:
        R.recalc(i)
    seg = do_segments(R, rng, i, tok, 'g1')
    g = tok.g['g1']
    m = R.models[i]
    sg = segs_of(seg)
    lay = tok.b[par['b']]
    f = R.weac.Layered(system=par['sys'], touchdown=par['td'])
    kw = {} if lay['law'] else {'C0': lay['C0'], 'C1': lay['C1'], 'nu': lay['nu']}
    f.set_beam_properties(lay['arg'], **kw)
    E, nu, t = tok.w[par['w']]
    f.set_foundation_properties(t=t, E=E, nu=nu, update=True)
    f.set_surface_load(tok.p[par['p']])
    args = dict(g)
    if par['sys'] == 'skiers':
        args = {'phi': g['phi'], 'li': sg['li'], 'mi': sg['mi'], 'ki': sg['ki'],
                'k0': np.array([True]*4)}
    elif par['sys'] == 'skier':
        args = dict(g, m=75.0, L=g['L'] + 15000)
    def both():
        s2 = f.calc_segments(**args)['crack']
        a = [m.tc, m.td, sg['li']]
        b = [f.tc, f.td, s2['li']]
        x = np.concatenate([np.ravel(np.asarray(v, float)) for v in a])
        y = np.concatenate([np.ravel(np.asarray(v, float)) for v in b])
        Ca = m.assemble_and_solve(phi=g['phi'], **sg)
        Cb = f.assemble_and_solve(phi=g['phi'], **{k: s2[k] for k in sg})
        za = m.rasterize_solution(C=Ca, phi=g['phi'], li=sg['li'], ki=sg['ki'], num=7)[1]
        zb = f.rasterize_solution(C=Cb, phi=g['phi'], li=s2['li'], ki=s2['ki'], num=7)[1]
        return x, y, za, zb
    R.compare('twin', i, both)
    if par['td'] and i == 1 and par['sys'] in NORMAL_SAW:
        R.transitions(i, g, float(m.td), m.mode)
        near_twin(R, rng, 8, par['sys'], {'lay': lay, 'p': tok.p[par['p']]}, tok.w[par['w']], g)


QUERIES = ('raster', 'fields', 'gdif', 'ginc', 'stress', 'getter', 'eval', 'loads', 'plot')


def query(R, rng, ctx, i, q, C, sg, ph, seg, rep, dz=None):
    m = R.models[i]
    if q == 'raster':
        num = gen.raster_num(rng, sg['li'], 3, 20)
        if num:
            R.raster(i, ph, C, sg, num, rep=rep)
        return
    if q == 'gdif':
        return R.gdif(i, ph, C, sg, choice(rng, (None,) + ENE), rep=rep)
    if q == 'eval':
        return R.eval(i, ph, C, sg, rng, n=2)
    if q == 'loads':
        return R.loads(i, ph, [0.0, 70.0], total=False)
    x, z, xb = m.rasterize_solution(C=C, phi=ph, num=6, **sg)
    if q == 'fields':
        return R.fields(i, z, field_specs(rng, m))
    if q == 'getter':
        R.getter(i, 'tau', xb, z, unit='kPa')
        R.getter(i, 'sig', xb, z, drop=True)
        return R.getter(i, 'u', x, z, loc=choice(rng, ['top', 'mid', 'bot']))
    if q == 'stress':
        dz = dz or max(2.0, float(m.h)/20)
        R.stress(i, ph, z, dz, 'kPa', True)
        R.principal_slab(i, ph, z, dz, 'kPa', 'max', bool(rng.random() < 0.5))
        return None
    if q == 'ginc':
        base = {'li': sg['li'], 'mi': sg['mi']}
        k0 = np.full(len(sg['li']), True)
        mode = m.mode
        if mode == 'A':
            C0 = m.assemble_and_solve(phi=ph, ki=k0, **base)
            R.ginc(i, ph, C0, C, dict(sg, k0=k0), rep=rep)
        return None
    if q == 'plot' and ctx.plots is not None:
        ctx.plots.random(R, rng, i, ph, x, xb, z, sg, C)
    return None


# ------------------------------------------------------------------ C20 plots
def plots(R, rng, ctx):
    P = ctx.plots
    m, C, sg, ph, *_ = solved(R, rng, ctx)
    x, z, xb = m.rasterize_solution(C=C, phi=ph, num=int(rng.integers(70, 110)), **sg)
    for kind in ('displacements', 'section_forces', 'stresses'):
        xx = xb if kind == 'stresses' and np.isfinite(xb).sum() > 45 and rng.random() < 0.7 else x
        P.curves(R, rng, 1, kind, xx, z, sg if rng.random() < 0.7 else None)
    P.profile(R, 1)


def plots_deformed(R, rng, ctx):
    P = ctx.plots
    m, C, sg, ph, x, z, xb = solved(R, rng, ctx, num=14)
    for f in rng.permutation(['u', 'w', 'Sxx', 'Txz', 'Szz', 'principal', 'principal'])[:3]:
        P.deformed(R, rng, 1, x, xb, z, ph, field=str(f),
                   fname=choice(rng, [None, 'cont', 'mine', 'x%d' % rng.integers(9)]))


def plots_given(R, rng, ctx):
    ctx.plots.energy(R, rng)
    ctx.plots.base(R, rng)
    m, C, sg, ph, *_ = solved(R, rng, ctx)
    x, z, xb = m.rasterize_solution(C=C, phi=ph, num=int(rng.integers(150, 200)), **sg)
    xq = xb if np.isfinite(xb).sum() > 120 else x
    ctx.plots.fea(R, rng, 1, x, xq, z)


def plots_reject(R, rng, ctx):
    m, C, sg, ph, x, z, xb = solved(R, rng, ctx)
    for f in ('Syy', 'v', '', 'sxx', 'Principal'):
        R.reject(1, 'field', 'ValueError', lambda: ctx.plots.plot.deformed(
            m, x, xb, z, ph, field=f, dz=50), args=(x, xb, z))
        ctx.plots.clean()
    ctx.plots.profile(R, 1)
