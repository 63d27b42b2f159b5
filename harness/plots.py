"""Plots: what is drawn is recorded at the moment the file is written."""
import os
import shutil
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.axes
import matplotlib.colors as mcol
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np

import gen
from gen import choice, r3
from rec import digest, enc, quiet

SCRATCH = None          # folder in which the scratch working directories live
_saved = []
_contours = []


def _snapshot(fig):
    """Curves, texts and filled areas of a figure."""
    out = {'lines': [], 'texts': [], 'verts': [], 'spans': [], 'marks': []}
    for ax in fig.axes:
        texts = [(t.get_text(), mcol.to_hex(t.get_color())) for t in ax.texts]
        for ln in ax.get_lines():
            x, y = np.ma.filled(np.ma.asarray(ln.get_xdata(orig=True), float), np.nan), \
                np.ma.filled(np.ma.asarray(ln.get_ydata(orig=True), float), np.nan)
            if ln.get_transform() == ax.transData:
                c = mcol.to_hex(ln.get_color())
                out['lines'].append((np.ravel(x), np.ravel(y),
                                     [t for t, k in texts if k == c]))
            elif len(x) == 2 and x[0] == x[1]:
                out['marks'].append(float(x[0]))
        for p in ax.patches:
            e = p.get_path().transformed(p.get_patch_transform()).vertices
            out['spans'].append((float(e[:, 0].min()), float(e[:, 0].max())))
        for c in ax.collections:
            if type(c).__name__ in ('PolyCollection', 'FillBetweenPolyCollection'):
                for p in c.get_paths():
                    out['verts'] += [tuple(v) for v in p.vertices]
        out['texts'] += [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()]
    return out


_savefig = matplotlib.figure.Figure.savefig
_contourf = matplotlib.axes.Axes.contourf


def _rec_savefig(self, fname, **kw):
    _saved.append(_snapshot(self))
    kw['dpi'] = 30
    return _savefig(self, fname, **kw)


def _rec_contourf(self, *a, **kw):
    if len(a) >= 3:
        _contours.append([np.ma.filled(np.ma.asarray(v, float), np.nan).copy() for v in a[:3]]
                         + [np.ravel(np.asarray(kw.get('levels', a[3] if len(a) > 3 else []), float))])
    return _contourf(self, *a, **kw)


matplotlib.figure.Figure.savefig = _rec_savefig
matplotlib.axes.Axes.contourf = _rec_contourf


def files(d):
    return sorted(os.path.relpath(os.path.join(r, f), d)
                  for r, _, fs in os.walk(d) for f in fs)


MAPS = ('RdBu_r', 'RdBu', 'viridis', 'coolwarm', 'seismic')


def rc_state():
    skip = ('backend', 'backend_fallback', 'interactive', 'toolbar', 'timezone', 'date.epoch',
            'savefig.directory', 'webagg', 'tk.', 'figure.max_open_warning')
    rc = {k: repr(v) for k, v in plt.rcParams.items() if not k.startswith(skip)}
    for name in MAPS:            # matplotlib's own colour maps are settings too
        c = getattr(plt.cm, name)
        rc['cmap ' + name] = repr([tuple(f()) for f in (c.get_over, c.get_under, c.get_bad)])
    return rc


class Plots:
    """Calls of the plotting module of the code under test."""

    def __init__(self, plot):
        self.plot = plot
        plt.rcdefaults()
        self.rc = rc_state()

    def clean(self):
        plt.close('all')
        plt.rcdefaults()

    def event(self, R, i, kind, call, args, file, fill, labels):
        """fill(snapshot, contours) -> event fields."""
        d = tempfile.mkdtemp(dir=SCRATCH)
        old = os.getcwd()
        self.clean()
        e = R._ev('Plot', i, '')
        try:
            os.chdir(d)
            if len(args) % 2:
                os.mkdir('plots')
            del _saved[:], _contours[:]
            before = digest(*args)
            figs = len(plt.get_fignums())
            try:
                with quiet():
                    call()
                new = files(d)
                ok = [f for f in new
                      if open(os.path.join(d, f), 'rb').read(8) == b'\x89PNG\r\n\x1a\n']
                snap = _saved[-1] if _saved else {
                    'lines': [], 'texts': [], 'verts': [], 'spans': [], 'marks': []}
                e.update(kind=kind, file='plots/%s.png' % file, new=new, png=(ok == new),
                         figs=[figs, len(plt.get_fignums())], rc=rc_state() == self.rc,
                         texts=[[t, any(t in s for s in snap['texts'])] for t in labels],
                         lines=[{'x': enc(x), 'y': enc(y), 'labels': lb}
                                for x, y, lb in snap['lines']],
                         want=[], x=[], Z=[], phi=enc(0.0), marks=[], spans=[], li=[], mi=[],
                         ki=[], framed=False)
                e.update(fill(snap, list(_contours)))
                e['proj'] = R._proj(i)
            except Exception as x:      # noqa
                e['exc'] = '%s: %s' % (type(x).__name__, str(x)[:200])
            e['args'] = [before, digest(*args)]
        finally:
            os.chdir(old)
            self.clean()
            shutil.rmtree(d, ignore_errors=True)
        R._write(e)

    # ---------------------------------------------------------------- curves
    def curves(self, R, rng, i, kind, x, Z, sg=None):
        m = R.models[i]
        Q = {'displacements': ('disp', [('u', 'mm', 1, r'$u_0\ (\mathrm{mm})$'),
                                        ('w', 'mm', -1, r'$-w\ (\mathrm{mm})$'),
                                        ('psi', 'degrees', 1, r'$\psi\ (^\circ)$ ')],
                               ['Displacements']),
             'section_forces': ('forc', [('N', '', 1, r'$N$'), ('M', '', 1, r'$M$'),
                                         ('V', '', 1, r'$V$')], ['Section forces']),
             'stresses': ('stress', [('tau', 'kPa', 1, r'$\tau$'),
                                     ('sig', 'kPa', 1, r'$\sigma$')], ['Stress (kPa)'])}
        name, curves, lab = Q[kind]
        suffix = choice(rng, [None, '', 3, '_b'])
        kw = {} if suffix is None else {'i': suffix}
        if sg is not None:
            kw.update(sg)
        def fill(s, c):
            out = {'x': enc(x), 'Z': enc(Z.T),
                   'want': [{'q': q, 'unit': u, 'sign': enc(float(g)), 'name': q, 'label': lb,
                             'x': [], 'y': []} for q, u, g, lb in curves]}
            if sg is not None:
                out.update(framed=True, marks=enc(s['marks']) if s['marks'] else [],
                           spans=[enc(v) for v in s['spans']], li=enc(sg['li']),
                           mi=enc(np.asarray(sg['mi'], float)) if len(sg['mi']) else [],
                           ki=[bool(b) for b in sg['ki']])
            return out
        self.event(R, i, kind, lambda: getattr(self.plot, kind)(m, x=x, z=Z, **kw),
                   (x, Z, sg), name + ('' if suffix is None else str(suffix)), fill,
                   lab + ['(cm)'])

    def given(self, R, i, kind, call, args, file, rows, labels):
        """rows: (x in mm, y, label)."""
        def fill(s, c):
            return {'want': [{'q': 'given', 'unit': '', 'sign': enc(1.0), 'name': str(k),
                              'label': lb, 'x': enc(x), 'y': enc(y)}
                             for k, (x, y, lb) in enumerate(rows)]}
        self.event(R, i, kind, call, args, file, fill, labels + ['(cm)'])

    def energy(self, R, rng):
        n = int(rng.integers(45, 90))
        da = np.sort(rng.uniform(1, 3000, n))
        lo = choice(rng, [0, -1e-2])         # a single mode may be negative
        G1, G2 = rng.uniform(lo, 1e-2, (3, n)), rng.uniform(lo, 1e-2, (3, n))
        stress = rng.uniform(-2, 2, n)
        mode = int(rng.integers(3))
        dflt = rng.random() < 0.3
        if dflt:
            mode = 0
        self.given(R, 0, 'err_comp',
                   (lambda: self.plot.err_comp(da, G1, G2)) if dflt else
                   (lambda: self.plot.err_comp(da, G1, G2, mode=mode)), (da, G1, G2), 'err',
                   [(da, 1e3*G1[mode], r'$\mathcal{G}$'),
                    (da, 1e3*G2[mode], r'$\bar{\mathcal{G}}$')], ['J/m'])
        kind = choice(rng, ['inc', 'dif'])
        b = r'$\bar{\mathcal{G}}$' if kind == 'inc' else r'$\mathcal{G}$'
        self.given(R, 0, 'err_modes', lambda: self.plot.err_modes(da, G1, kind=kind), (da, G1),
                   'modes', [(da, 1e3*G1[2], b + r'$_\mathrm{I\!I}$'),
                             (da, 1e3*G1[1], b + r'$_\mathrm{I}$'),
                             (da, 1e3*G1[0], b + r'$_\mathrm{I+I\!I}$')], ['J/m'])
        self.given(R, 0, 'stress_criteria', lambda: self.plot.stress_criteria(da, stress),
                   (da, stress), 'crit', [(da, stress, r'$\sigma/\sigma_\mathrm{c}$')],
                   ['Criteria'])

    def base(self, R, rng):
        """The base function, with a second axis."""
        def curve(n, lb):
            x = np.sort(rng.uniform(1, 9000, n))
            y = rng.normal(size=n)*10**rng.uniform(-2, 2)
            if gap:
                x[int(n/3):int(n/3) + 4] = np.nan
            return x, y, lb
        n, gap = int(rng.integers(70, 100)), bool(rng.random() < 0.3)
        one = [curve(n, r'$a_%d$' % k) for k in range(int(rng.integers(1, 4)))]
        two = [curve(n, r'$b_%d$' % k) for k in range(int(rng.integers(0, 3)))]
        kw = {'name': 'base%d' % rng.integers(10), 'ax1label': 'left side',
              'ax1data': [[x/10, y, lb] for x, y, lb in one]}
        if two:
            kw.update(ax2data=[[x/10, y, lb] for x, y, lb in two], ax2label='right side')
        sg = None
        if rng.random() < 0.5:
            k = int(rng.integers(2, 6))
            sg = {'li': rng.uniform(100, 2500, k), 'ki': rng.random(k) < 0.6,
                  'mi': np.where(rng.random(k - 1) < 0.5, 80.0, 0.0)}
            kw.update(sg)
        if sg is None and rng.random() < 0.3:
            kw['vlines'] = False
        rows = one + two
        def fill(s, c):
            out = {'want': [{'q': 'given', 'unit': '', 'sign': enc(1.0), 'name': lb,
                             'label': lb, 'x': enc(x), 'y': enc(y)} for x, y, lb in rows]}
            if sg is not None:
                out.update(framed=True, marks=enc(s['marks']) if s['marks'] else [],
                           spans=[enc(v) for v in s['spans']], li=enc(sg['li']),
                           mi=enc(sg['mi']), ki=[bool(b) for b in sg['ki']])
            return out
        self.event(R, 0, 'base', lambda: self.plot.plot_data(**kw), (kw, one, two), kw['name'],
                   fill, ['left side', '(cm)'] + (['right side'] if two else []))

    def fea(self, R, rng, i, x, xb, Z):
        m = R.models[i]
        n = int(rng.integers(30, 60))
        fea = np.column_stack([np.sort(rng.uniform(0, 5000, n)), rng.normal(size=(n, 5))])
        flip = fea[::-1]
        self.event(R, i, 'fea_disp', lambda: self.plot.fea_disp(m, x, Z, fea), (x, Z, fea),
                   'fea_disp', lambda s, c: {'x': enc(x), 'Z': enc(Z.T), 'want': [
                       {'q': 'given', 'unit': '', 'sign': enc(1.0), 'name': 'fea ' + lb,
                        'label': r'FEA $%s$' % lb, 'x': enc(fea[:, 0]), 'y': enc(y)}
                       for lb, y in ((r'u_0', -flip[:, 1]), (r'w_0', flip[:, 2]),
                                     (r'\psi', np.rad2deg(flip[:, 5])))] + [
                       {'q': q, 'unit': u, 'sign': enc(float(g)), 'name': q, 'label': lb,
                        'x': [], 'y': []}
                       for q, u, g, lb in (('u', 'mm', 1, r'$u_0$'), ('w', 'mm', -1, r'$-w$'),
                                           ('psi', 'degrees', 1, r'$\psi$'))]},
                   ['Displacements (mm)', '(cm)'])
        self.event(R, i, 'fea_stress', lambda: self.plot.fea_stress(m, xb, Z, fea), (xb, Z, fea),
                   'fea_stress', lambda s, c: {'x': enc(xb), 'Z': enc(Z.T), 'want': [
                       {'q': 'given', 'unit': '', 'sign': enc(1.0), 'name': 'fea ' + lb,
                        'label': r'FEA $\%s$' % lb, 'x': enc(fea[:, 0]), 'y': enc(y)}
                       for lb, y in (('sigma_2', 1e3*flip[:, 2]), ('tau_{12}', 1e3*flip[:, 3]))] + [
                       {'q': q, 'unit': 'kPa', 'sign': enc(1.0), 'name': q, 'label': lb,
                        'x': [], 'y': []}
                       for q, lb in (('tau', r'$\tau$'), ('sig', r'$\sigma$'))]},
                   ['Stress (kPa)', '(cm)'])

    def profile(self, R, i):
        m = R.models[i]
        self.event(R, i, 'profile', lambda: self.plot.slab_profile(m), (), 'profile',
                   lambda s, c: {'verts': [enc(v) for v in dict.fromkeys(s['verts'])]},
                   ['Density', 'Height above weak layer (mm)'])

    # -------------------------------------------------------------- contours
    def deformed(self, R, rng, i, x, xb, Z, phi, field=None, fname=None):
        m = R.models[i]
        field = field or choice(rng, ['u', 'w', 'Sxx', 'Txz', 'Szz', 'principal'])
        dz = max(2.0, r3(float(m.h)/choice(rng, [4, 6, 9])))
        kw = {'dz': dz, 'levels': 12, 'field': field}
        if rng.random() < 0.7:
            kw['scale'] = choice(rng, [1, 10, 100, 250, 37.5])
        if rng.random() < 0.3:
            kw['dark'] = True
        if rng.random() < 0.3:
            kw['window'] = float(choice(rng, [50., 200.]))
        if rng.random() < 0.3:
            kw['aspect'] = 3
        if rng.random() < 0.3:
            kw['pad'] = 5
        norm = True
        if field == 'principal':
            norm = bool(rng.random() < 0.5)
            if not norm or rng.random() < 0.5:
                kw['normalize'] = norm
            if norm and rng.random() < 0.5:
                kw.pop('field')
        if fname:
            kw['filename'] = fname
        lab = {'u': r'$u$ ($\mu$m)', 'w': r'$w$ ($\mu$m)', 'Sxx': r'$\sigma_{xx}$ (kPa)',
               'Txz': r'$\tau_{xz}$ (kPa)', 'Szz': r'$\sigma_{zz}$ (kPa)',
               'principal': r'$\sigma_\mathrm{I}/\sigma_+$ (slab)' if norm
               else r'$\sigma_\mathrm{I}$ (kPa, slab)'}[field]
        def fill(s, c):
            zi = m.get_zmesh(dz=dz)[:, 0]
            sf, wf = [], []
            if field in ('Sxx', 'Txz', 'Szz'):
                sf = getattr(m, field)(Z, phi, dz=dz, unit='kPa')
            elif field == 'principal':
                sf = m.principal_stress_slab(Z, phi, dz=dz, val='max', unit='kPa', normalize=norm)
                wf = m.principal_stress_weaklayer(Z, val='min', unit='kPa', normalize=norm)
            if field == 'Txz':
                wf = m.get_weaklayer_shearstress(xb, Z, unit='kPa')[1]
            elif field == 'Szz':
                wf = m.get_weaklayer_normalstress(xb, Z, unit='kPa')[1]
            inf = R.meta[i]['sys'] in gen.INF
            return {'phi': enc(phi), 'x': enc(x), 'xb': enc(xb), 'Z': enc(Z.T), 'zi': enc(zi),
                    'shift': enc(float(x.max()/2) if inf else 0.0),
                    'scale': enc(float(kw.get('scale', 100))), 'field': field,
                    'slabfield': enc(sf) if len(sf) else [],
                    'weakfield': enc(wf) if len(wf) else [], 'lines': [],
                    'saw': not inf,
                    'outl': [{'x': enc(a), 'y': enc(b)} for a, b, _ in s['lines']],
                    'levels': [enc(v[3]) if len(v[3]) else [] for v in c],
                    'C': [{'X': enc(a), 'Y': enc(b), 'F': enc(f)} for a, b, f, _ in c]}
        self.event(R, i, 'deformed',
                   lambda: self.plot.deformed(m, x, xb, Z, phi, **kw), (x, xb, Z),
                   fname or 'cont', fill,
                   [lab, 'lateral position $x$ (cm)', 'depth below surface',
                    r'$%s\!\times\!$ scaled deformations' % kw.get('scale', 100)])

    def random(self, R, rng, i, phi, x, xb, Z, sg, C):
        m = R.models[i]
        k = rng.integers(3)
        if k == 0:
            self.deformed(R, rng, i, x, xb, Z, phi)
        elif k == 1:
            self.profile(R, i)
        else:
            xx, ZZ, xbb = m.rasterize_solution(C=C, phi=phi, num=60, **sg)
            if np.isfinite(xbb).sum() >= 45:
                self.curves(R, rng, i, choice(rng, ['displacements', 'section_forces', 'stresses']),
                            xx, ZZ)
