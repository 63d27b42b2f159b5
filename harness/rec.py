"""Recording of API calls as trace events for WeacTrace.tla.

Every wrapper performs one public call on the real code, and writes down what
a user can observe: the answer, the public attributes of the models, and
whether the arguments were touched.  Nothing is judged here.
"""
import contextlib
import copy
import io
import hashlib
import json
import os
import signal
import traceback
import warnings
import zlib

import numpy as np

import mini

GX = mini.GX


class Abort(Exception):
    """The scenario cannot be continued (the failed call is recorded)."""


class Timeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise Timeout()


def enc(x):
    """Encode reals as pairs of signed 32-bit integers, keeping structure."""
    a = np.asarray(x, dtype='<f8')
    p = a.flatten().view('<i4').reshape(-1, 2)[:, ::-1]
    return p.reshape(a.shape + (2,)).tolist()


def bools(x):
    return [bool(b) for b in np.asarray(x).ravel()]


def digest(*args, **kw):
    """Bit-exact picture of (nested) arguments."""
    def d(o):
        if isinstance(o, np.ndarray):
            return ('nd', o.dtype.str, o.shape, o.tobytes())
        if isinstance(o, dict):
            return ('d', tuple((k, d(o[k])) for k in sorted(o)))
        if isinstance(o, (list, tuple)):
            return (type(o).__name__, tuple(d(i) for i in o))
        if isinstance(o, (np.generic, float, int, bool, str, bytes, type(None))):
            return (type(o).__name__, repr(o))
        return ('obj', id(o))
    return hashlib.sha1(repr(d([list(args), kw])).encode()).hexdigest()[:16]


def flat(*vals):
    """Flatten answers into one vector of reals for comparison."""
    out = []
    for v in vals:
        if isinstance(v, dict):
            out.append(flat(*[v[k] for k in sorted(v)]))
        elif isinstance(v, (list, tuple)):
            out.append(flat(*v))
        else:
            out.append(np.asarray(v, dtype=float).ravel())
    return np.concatenate(out) if out else np.zeros(0)


class Rec:
    """One trace: events of consecutive scenarios."""

    def __init__(self, path, focus, weac, tools, limit=150):
        self.f = open(path, 'w')
        self.focus = focus
        self.weac = weac
        self.tools = tools
        self.limit = limit
        self.lines = 0
        self.models = {}
        self.index = []          # [first line, scenario name, parameters]
        self.all = focus in ('C01', 'C02', 'C18', 'ALL')
        signal.signal(signal.SIGPROF, _alarm)

    # ------------------------------------------------------------- scenarios
    def scenario(self, name, params, fn):
        self.models = {}
        self.meta = {}
        self.index.append([self.lines + 1, name, params])
        self.tick = zlib.crc32(json.dumps(params, sort_keys=True, default=str).encode())
        self._write({'ev': 'Reset', 'i': 0})
        signal.setitimer(signal.ITIMER_PROF, self.limit)      # processor time
        try:
            with quiet():
                fn(self)
        except Abort:
            pass
        except Timeout:
            self._write(self._ev('Timeout', 0, 'Timeout'))
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as x:      # noqa: a call in between which should have worked
            if os.environ.get('WEAC_VERIF_RAISE'):
                raise
            tb = traceback.extract_tb(x.__traceback__)
            self._write(self._ev('Broken', 0, '%s: %s (%s)' % (
                type(x).__name__, str(x)[:200],
                ' < '.join('%s:%d' % (f.name, f.lineno) for f in tb[::-1][:4]))))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def close(self):
        self.f.close()

    def _write(self, e):
        self.f.write(json.dumps(e, separators=(',', ':')) + '\n')
        self.lines += 1

    def _proj(self, i):
        ids = sorted(self.models) if self.all else ([i] if i else [])
        out = []
        for j in ids:
            if j in self.models:
                out.append([j, self.proj(self.models[j])])
        return out

    @staticmethod
    def proj(m):
        s = np.asarray(m.slab, float)
        if s.ndim != 2 or s.shape[1] != 5:
            raise ValueError('slab has shape %s' % (s.shape,))
        return {'sys': m.system, 'E': enc(m.weak['E']), 'nu': enc(m.weak['nu']),
                't': enc(m.t), 'slab': enc(s), 'h': enc(m.h), 'zs': enc(m.zs),
                'k': enc(m.k), 'kn': enc(m.kn), 'kt': enc(m.kt),
                'A': enc(m.A11), 'B': enc(m.B11), 'D': enc(m.D11),
                'S': enc(m.kA55), 'K0': enc(m.K0), 'p': enc(m.p),
                'ply': enc(np.ravel(m.get_ply_coordinates())),
                # what the last segmentation was about
                'ctx': [str(m.mode), str(bool(m.touchdown))] + [enc(float(v)) for v in (
                    m.phi, m.a, m.tc, m.td, m.ratio, m.g, m.lski, m.tol)]}

    def _ev(self, ev, i, exc, query=True):
        return {'ev': ev, 'i': i, 'exc': exc, 'query': query,
                'proj': [], 'args': ['', ''], 'rep': []}

    def event(self, ev, i, call, post, args=(), query=True, rep=None, need=True):
        """Run call(), turn its answer into event fields by post(answer).

        args: caller's data which must not change; rep: answer -> flat vector,
        in which case the call is made twice.
        """
        e = self._ev(ev, i, '', query)
        before = digest(*args)
        ret = None
        try:
            with quiet():
                ret = call()
                if rep is not None:
                    a = flat(rep(ret)).copy()
                    b = flat(rep(call()))
                    e['rep'] = [[enc(a), enc(b)]]
                fields = post(ret)
            e.update(fields)
            e['proj'] = self._proj(i)
        except Timeout:
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as x:      # noqa: any failure of a valid call
            e['exc'] = '%s: %s' % (type(x).__name__, str(x)[:200])
        e['args'] = [before, digest(*args)]
        self._write(e)
        if e['exc'] and need:
            raise Abort()
        return ret

    def opt(self, kw, dflt):
        """Every other call leaves out the arguments which have their default value."""
        self.tick = (self.tick*1103515245 + 12345) & 0x7fffffff
        if self.tick >> 16 & 1:
            return kw
        return {k: v for k, v in kw.items() if k not in dflt or type(v) is np.ndarray
                or v != dflt[k]}

    # ---------------------------------------------------------- configuration
    def new(self, i, system, lay, td=False, inverse=None):
        """lay: laydef dict (see laydef)."""
        arg = lay['arg']
        params = None
        if inverse is not None:
            C0, C1, Ew = inverse
            lay = dict(lay, C0=C0, C1=C1)
            weak = (Ew, 0.25, 30.0)
            params = (C0, C1, Ew)
            def call():
                return self.weac.Inverse(system=system, layers=arg, parameters=params)
        else:
            weak = (0.25, 0.25, 30.0)
            def call():
                kw = self.opt({'system': system, 'touchdown': td},
                              {'system': 'pst-', 'touchdown': False})
                if lay['kind'] != 'default':
                    kw['layers'] = arg
                return self.weac.Layered(**kw)
        self.meta[i] = {'sys': system, 'td': td, 'lay': lay, 'weak': weak, 'p': 0.0}
        def post(m):
            self.models[i] = m
            return {'sys': system, 'td': td, 'lay': layenc(lay), 'weak': enc(weak)}
        m = self.event('New', i, call, post, args=(arg, params), query=False)
        return m

    def foundation(self, i, weak, update=True, defaults=False):
        E, nu, t = weak
        m = self.models[i]
        self.meta[i]['weak'] = weak
        def call():
            if defaults:
                return m.set_foundation_properties(update=update)
            return m.set_foundation_properties(update=update, **self.opt(
                {'t': t, 'E': E, 'nu': nu}, {'t': 30, 'E': 0.25, 'nu': 0.25}))
        self.event('Found', i, call,
                   lambda r: {'weak': enc(weak), 'update': update}, query=False)

    def beam(self, i, lay, update=True):
        m = self.models[i]
        self.meta[i]['lay'] = lay
        kw = {} if lay['law'] else self.opt(
            {'C0': lay['C0'], 'C1': lay['C1'], 'nu': lay['nu']}, {'C0': 6.5, 'C1': 4.4, 'nu': 0.25})
        self.event('Beam', i,
                   lambda: m.set_beam_properties(lay['arg'], update=update, **kw),
                   lambda r: {'lay': layenc(lay), 'update': update},
                   args=(lay['arg'],), query=False)

    def load(self, i, p):
        m = self.models[i]
        self.meta[i]['p'] = p
        self.event('Load', i, lambda: m.set_surface_load(p),
                   lambda r: {'p': enc(p)}, query=False)

    def clone(self, j, i):
        self.meta[i] = copy.deepcopy(self.meta[j])
        def call():
            self.models[i] = copy.deepcopy(self.models[j])
        self.event('Clone', i, call, lambda r: {'src': j}, query=False)

    def retarget(self, i, system, td):
        m = self.models[i]
        self.meta[i].update(sys=system, td=td)
        def call():
            m.system = system
            m.touchdown = td
        self.event('Retarget', i, call, lambda r: {'sys': system, 'td': td}, query=False)

    def recalc(self, i):
        self.event('Recalc', i, self.models[i].calc_fundamental_system,
                   lambda r: {}, query=False)

    def model(self, i, system, cfg, td=False, inverse=None):
        """A configured, up-to-date model."""
        self.new(i, system, cfg['lay'], td, inverse)
        if cfg.get('weak') is not None:
            self.foundation(i, cfg['weak'], update=True)
        if cfg.get('p'):
            self.load(i, cfg['p'])
        return self.models[i]

    def bm(self, i):
        """Reference beam with the parameters the user has set."""
        d = self.meta[i]
        return mini.Beam(slab_of(d['lay']), d['weak'], d['p'])

    # ------------------------------------------------------------------ loads
    def loads(self, i, phi, masses, total=True):
        m = self.models[i]
        def call():
            w = m.get_weight_load(phi)
            s = m.get_surface_load(phi)
            k = m.get_skier_load(masses, phi)
            t = (m.calc_qn(), m.calc_qt()) if total else None
            return w, s, k, t
        def post(r):
            w, s, k, t = r
            return {'phi': enc(phi), 'm': enc(np.atleast_1d(masses)), 'weight': enc(w), 'surface': enc(s),
                    'skier': [enc(np.ravel(k[0])), enc(np.ravel(k[1]))],
                    'total': enc(t) if t is not None else []}
        self.event('Loads', i, call, post, args=(masses,))

    # --------------------------------------------------------------- segments
    def segments(self, i, L=1e4, a=0.0, phi=0.0, m=0.0, cf=0.5, ratio=1000.0,
                 li=None, mi=None, ki=None, k0=None, terse=False):
        mdl = self.models[i]
        kw = {'L': L, 'a': a, 'phi': phi, 'm': m, 'cf': cf, 'ratio': ratio}
        self.meta[i]['geo'] = {'L': L, 'a': a, 'phi': phi, 'cf': cf, 'ratio': ratio}
        dflt = {'L': 1e4, 'a': 0, 'm': 0, 'phi': 0, 'cf': 0.5, 'ratio': 1000}
        kw = {k: v for k, v in kw.items() if v != dflt[k]} if terse else self.opt(kw, dflt)
        if li is not None:
            kw.update(li=li, mi=mi, ki=ki, k0=k0)
        ex = {'li': [], 'mi': [], 'ki': [], 'k0': []}
        if li is not None:
            ex = {'li': enc(np.asarray(li, float)), 'mi': enc(np.asarray(mi, float)),
                  'ki': bools(ki), 'k0': bools(k0)}
        def post(s):
            d = {}
            for k in ('crack', 'nocrack', 'both'):
                d[k] = {'li': enc(np.asarray(s[k]['li'], float)),
                        'mi': enc(np.asarray(s[k]['mi'], float)),
                        'ki': bools(s[k]['ki'])}
            d['both']['k0'] = bools(s['both']['k0'])
            d.update(geo={'L': enc(L), 'a': enc(a), 'phi': enc(phi), 'cf': enc(cf),
                          'ratio': enc(ratio)},
                     m=enc(m), ex=ex, tdl=enc(mdl.td), mode=str(mdl.mode), tc=enc(mdl.tc),
                     a=enc(mdl.a))
            return d
        return self.event('Seg', i, lambda: mdl.calc_segments(**kw), post,
                          args=(li, mi, ki, k0), query=False)

    def transitions(self, i, geo, tdl, mode):
        """geo: dict with L, a, phi, cf, ratio of the last segmentation."""
        m = self.models[i]
        bm = self.bm(i)
        L, a = geo['L'], geo['a']
        def post(r):
            a1, a2 = r
            def two(x):
                return [mini.spring(bm, 1, x, 'rot'), mini.spring(bm, 1, x, 'trans')]
            k3 = two(L - a) + [mini.spring(bm, geo['ratio'], a - tdl, 'rot')] \
                if mode == 'C' else [0.0, 0.0, 0.0]
            return {'a1': enc(a1), 'a2': enc(a2), 'k1': enc(two(L - a1)),
                    'k2': enc(two(L - a2)), 'k3': enc(k3)}
        return self.event('Trans', i, lambda: (m.calc_a1(), m.calc_a2()), post)

    def subst(self, i, L, rested, dof, ratio):
        m = self.models[i]
        bm = self.bm(i)
        def post(k):
            c = mini.certificate(bm, ratio if rested else 1.0, L, dof)
            return {'rested': rested, 'dof': dof, 'L': enc(L), 'k': enc(k),
                    'zl': enc(c['zl']), 'zr': enc(c['zr']),
                    'cert': [{'len': enc(s['len']), 'za': enc(s['za']), 'zb': enc(s['zb']),
                              'g': enc(s['g'])} for s in c['cert']]}
        kw = self.opt({'support': 'rested' if rested else 'supported', 'dof': dof},
                      {'support': 'rested', 'dof': 'rot'})
        again = self.opt({'ratio': ratio}, {'ratio': 1000})
        def call():
            if again != {'ratio': ratio}:       # the ratio it has already
                m.set_stiffness_ratio(**again)
            return m.substitute_stiffness(L, **kw)
        return self.event('Subst', i, call, post, rep=lambda k: [k])

    # ---------------------------------------------------------------- solving
    def zat(self, m, C, li, ki, phi, j, x):
        """Solution of segment j at local position(s) x as rows."""
        z = np.asarray(m.z(x, C[:, [j]], li[j], phi, bool(ki[j])))
        if z.ndim != 2 or z.shape[0] != 6:
            raise ValueError('solution has shape %s' % (z.shape,))
        return z.T

    def solve(self, i, phi, segs, rng, nsamp=8, rep=False, kr=0.0):
        m = self.models[i]
        li = np.asarray(segs['li'], float)
        ki = np.asarray(segs['ki'])
        n = len(li)
        rate = None
        bm = self.bm(i)
        rate = np.abs(mini.modes(bm, 1.0)[0]).max()
        step = min(100.0, 2.5/rate)
        def post(C):
            C = np.asarray(C)
            if C.shape != (6, n):
                raise ValueError('constants have shape %s' % (C.shape,))
            zl = [self.zat(m, C, li, ki, phi, j, 0.0)[0] for j in range(n)]
            zr = [self.zat(m, C, li, ki, phi, j, li[j])[0] for j in range(n)]
            samp = []
            for j, x, ln in pick(rng, li, ki, step, nsamp):
                nodes = x + ln/2*(1 + GX)
                z = self.zat(m, C, li, ki, phi, j, [x, *nodes, x + ln])
                samp.append({'bed': bool(ki[j]), 'len': enc(ln), 'za': enc(z[0]),
                             'zb': enc(z[-1]), 'g': enc(z[1:-1])})
            return {'phi': enc(phi), 'li': enc(li), 'mi': enc(np.asarray(segs['mi'], float)),
                    'ki': bools(ki), 'ends': [enc(zl[0]), enc(zr[-1])],
                    'bnd': [[enc(zr[j]), enc(zl[j + 1])] for j in range(n - 1)],
                    'samp': samp, 'kr': enc(kr)}
        return self.event('Solve', i, lambda: m.assemble_and_solve(phi=phi, **segs), post,
                          args=(segs,), rep=(lambda C: [C]) if rep else None)

    def eval(self, i, phi, C, segs, rng, n=3):
        """Scalar and list evaluation, derivative routines."""
        m = self.models[i]
        li, ki = np.asarray(segs['li'], float), np.asarray(segs['ki'])
        js = [int(j) for j in rng.choice(np.flatnonzero(ki & (li > 0)), n)]
        xs = [float(li[j]*rng.random()) for j in js]
        fj = [int(j) for j in rng.choice(np.flatnonzero(li > 0), n)]
        fx = [[float(v) for v in li[j]*rng.random(3)] for j in fj]
        def call():
            Z = np.hstack([m.z(x, C[:, [j]], li[j], phi, True) for j, x in zip(js, xs)])
            pairs = []
            for j, x in zip(fj, fx):
                zz = m.z(x, C[:, [j]], li[j], phi, bool(ki[j]))
                za = m.z(np.array(x), C[:, [j]], li[j], phi, bool(ki[j]))
                for c, v in enumerate(x):
                    one = np.ravel(m.z(v, C[:, [j]], li[j], phi, bool(ki[j])))
                    pairs += [[enc(zz[:, c]), enc(one)], [enc(za[:, c]), enc(one)]]
            col = [Z[:, [k]] for k in range(Z.shape[1])]
            d1 = [np.ravel(m.dz_dx(c, phi)) for c in col]
            d2 = [np.ravel(m.dz_dxdx(c, phi)) for c in col]
            mat = (m.du0_dxdx(Z, phi), m.dpsi_dxdx(Z, phi), m.du0_dxdxdx(Z, phi),
                   m.dpsi_dxdxdx(Z, phi))
            return Z, pairs, d1, d2, np.vstack(mat).T
        return self.event('Eval', i, call, lambda r: {
            'phi': enc(phi), 'Z': enc(r[0].T), 'pairs': r[1], 'd1': enc(r[2]),
            'd2': enc(r[3]), 'dd': enc(r[4])}, args=(C, segs))

    # --------------------------------------------------------- raster, fields
    def raster(self, i, phi, C, segs, num, rep=False, explicit=True):
        m = self.models[i]
        li, ki = np.asarray(segs['li'], float), np.asarray(segs['ki'])
        kw = dict(segs)
        if explicit:
            kw['num'] = num
        def post(r):
            xq, zq, xb = (np.asarray(v, float) for v in r)
            pos = np.concatenate(([0], np.cumsum(li)))
            tol = 1e-9*pos[-1]
            cand = []
            for x in xq:
                c = []
                for j in range(len(li)):
                    if li[j] > 0 and pos[j] - tol <= x <= pos[j + 1] + tol:
                        c.append(enc(self.zat(m, C, li, ki, phi, j,
                                              float(min(max(x - pos[j], 0), li[j])))[0]))
                cand.append(c)
            return {'phi': enc(phi), 'li': enc(li), 'ki': bools(ki), 'num': int(num),
                    'xq': enc(xq), 'zq': enc(zq.T), 'xb': enc(xb), 'cand': cand}
        return self.event('Raster', i,
                          lambda: m.rasterize_solution(C=C, phi=phi, **kw), post,
                          args=(C, segs), rep=(lambda r: list(r)) if rep else None)

    def gdif(self, i, phi, C, segs, unit='kJ/m^2', rep=False):
        m = self.models[i]
        li, ki = np.asarray(segs['li'], float), np.asarray(segs['ki'])
        kw = {} if unit is None else {'unit': unit}
        def post(G):
            G = np.asarray(G, float).ravel()
            if G.size != 3:
                raise ValueError('gdif has %d entries' % G.size)
            tip = [[enc(self.zat(m, C, li, ki, phi, j, float(li[j]))[0]),
                    enc(self.zat(m, C, li, ki, phi, j + 1, 0.0)[0])] for j in range(len(li) - 1)]
            return {'phi': enc(phi), 'li': enc(li), 'ki': bools(ki), 'unit': unit or 'kJ/m^2',
                    'G': enc(G), 'tipz': tip}
        return self.event('Gdif', i, lambda: m.gdif(C, phi, **segs, **kw), post,
                          args=(C, segs), rep=(lambda G: [G]) if rep else None)

    def ginc(self, i, phi, C0, C1, both, loaded=False, mean=(), rep=False):
        m = self.models[i]
        li = np.asarray(both['li'], float)
        ki, k0 = np.asarray(both['ki']), np.asarray(both['k0'])
        rate = np.abs(mini.modes(self.bm(i), 1.0)[0]).max()
        step = 2.0/rate
        def post(G):
            G = np.asarray(G, float).ravel()
            if G.size != 3:
                raise ValueError('ginc has %d entries' % G.size)
            samp = []
            for j in range(len(li)):
                if k0[j] and not ki[j] and li[j] > 0:
                    ed = np.linspace(0, li[j], int(np.ceil(li[j]/step)) + 1)
                    for x, y in zip(ed[:-1], ed[1:]):
                        nodes = list(x + (y - x)/2*(1 + GX))
                        z0 = self.zat(m, C0, li, k0, phi, j, nodes)
                        z1 = self.zat(m, C1, li, ki, phi, j, nodes)
                        samp.append({'len': enc(y - x), 'z0': enc(z0), 'z1': enc(z1)})
            return {'phi': enc(phi), 'li': enc(li), 'ki': bools(ki), 'k0': bools(k0),
                    'G': enc(G), 'samp': samp, 'loaded': bool(loaded),
                    'mean': enc(np.asarray(mean)) if len(mean) else []}
        return self.event('Ginc', i, lambda: m.ginc(C0=C0, C1=C1, phi=phi, **both), post,
                          args=(C0, C1, both), rep=(lambda G: [G]) if rep else None)

    def potential(self, i, phi, C, segs, L, num):
        m = self.models[i]
        li, ki = np.asarray(segs['li'], float), np.asarray(segs['ki'])
        rate = np.abs(mini.modes(self.bm(i), 1.0)[0]).max()
        step = 2.0/rate
        def call():
            return [float(f(C, phi, L, **dict(segs, num=n))) for n in (num, 2*num) for f in (
                m.internal_potential, m.external_potential, m.total_potential)]
        def post(r):
            samp = []
            for j in range(len(li)):
                if li[j] > 0:
                    ed = np.linspace(0, li[j], int(np.ceil(li[j]/step)) + 1)
                    for x, y in zip(ed[:-1], ed[1:]):
                        nodes = list(x + (y - x)/2*(1 + GX))
                        samp.append({'bed': bool(ki[j]), 'len': enc(y - x),
                                     'g': enc(self.zat(m, C, li, ki, phi, j, nodes))})
            n = len(li) - 1
            return {'phi': enc(phi), 'L': enc(L), 'li': enc(li), 'ki': bools(ki), 'samp': samp,
                    'ends': [enc(self.zat(m, C, li, ki, phi, 0, 0.0)[0]),
                             enc(self.zat(m, C, li, ki, phi, n, float(li[n]))[0])],
                    'pot': [enc(r[:3]), enc(r[3:])]}
        return self.event('Potential', i, call, post, args=(C, segs))

    def fields(self, i, Z, specs):
        """specs: list of (name, z0 or None, unit or None)."""
        m = self.models[i]
        def call():
            out = []
            for nm, z0, unit in specs:
                kw = {} if unit is None else {'unit': unit}
                if z0 is not None:
                    kw['z0'] = z0
                out.append(getattr(m, nm)(Z, **kw))
            return out
        dflt = {'w': 'mm', 'psi': 'rad', 'u': 'mm', 'sig': 'MPa', 'tau': 'MPa',
                'Gi': 'kJ/m^2', 'Gii': 'kJ/m^2'}
        def post(r):
            return {'Z': enc(Z.T), 'q': [
                {'name': nm, 'z0': enc(0.0 if z0 is None else z0),
                 'unit': unit or dflt.get(nm, ''), 'v': enc(np.ravel(v))}
                for (nm, z0, unit), v in zip(specs, r)]}
        return self.event('Fields', i, call, post, args=(Z,), rep=lambda r: r)

    def getter(self, i, name, x, Z, loc=None, unit=None, drop=None):
        m = self.models[i]
        fn = {'tau': 'get_weaklayer_shearstress', 'sig': 'get_weaklayer_normalstress',
              'u': 'get_slab_displacement', 'w': 'get_slab_deflection',
              'psi': 'get_slab_rotation'}[name]
        kw = {}
        if unit is not None:
            kw['unit'] = unit
        if loc is not None:
            kw['loc'] = loc
        if drop is not None:
            kw['removeNaNs'] = drop
        dflt = {'w': 'mm', 'psi': 'degrees', 'u': 'mm', 'sig': 'MPa', 'tau': 'MPa'}
        def post(r):
            return {'name': name, 'loc': loc or 'mid', 'unit': unit or dflt[name],
                    'drop': bool(drop), 'x': enc(x), 'Z': enc(Z.T),
                    'xo': enc(np.ravel(r[0])), 'v': enc(np.ravel(r[1]))}
        return self.event('Getter', i, lambda: getattr(m, fn)(x, Z, **kw), post, args=(x, Z),
                          rep=lambda r: list(r))

    # --------------------------------------------------------------- stresses
    def stress(self, i, phi, Z, dz, unit, bedded):
        m = self.models[i]
        kw = {} if unit is None else {'unit': unit}
        if dz is not None:
            kw['dz'] = dz
        def call():
            return (m.get_zmesh(**({} if dz is None else {'dz': dz})),
                    m.Sxx(Z, phi, **kw), m.Txz(Z, phi, **kw), m.Szz(Z, phi, **kw))
        def post(r):
            mesh, sxx, txz, szz = (np.asarray(v, float) for v in r)
            if mesh.ndim != 2 or mesh.shape[1] != 4 or not (
                    sxx.shape == txz.shape == szz.shape == (len(mesh), Z.shape[1])):
                raise ValueError('stress shapes %s %s %s %s' % (
                    mesh.shape, sxx.shape, txz.shape, szz.shape))
            # a new layer starts where an interface coordinate is repeated
            h = float(m.h)
            block = np.cumsum(np.concatenate(
                ([1], (np.abs(np.diff(mesh[:, 0])) <= 1e-9*h).astype(int))))
            return {'phi': enc(phi), 'dz': enc(2.0 if dz is None else dz),
                    'unit': unit or 'kPa', 'Z': enc(Z.T), 'bedded': bool(bedded),
                    'mesh': enc(mesh), 'block': [int(b) for b in block],
                    'sxx': enc(sxx), 'txz': enc(txz), 'szz': enc(szz)}
        return self.event('Stress', i, call, post, args=(Z,), rep=lambda r: list(r))

    def principal_slab(self, i, phi, Z, dz, unit, val, norm):
        m = self.models[i]
        kw = {'dz': dz, 'unit': unit}
        oth = 'min' if val == 'max' else 'max'
        ask = self.opt(dict(kw, val=val, normalize=norm),
                       {'dz': 2, 'unit': 'kPa', 'val': 'max', 'normalize': False})
        def call():
            return (m.principal_stress_slab(Z, phi, **ask),
                    m.Sxx(Z, phi, **kw), m.Txz(Z, phi, **kw), m.Szz(Z, phi, **kw),
                    m.get_zmesh(dz=dz)[:, 3],
                    None if norm else m.principal_stress_slab(Z, phi, val=oth, **kw))
        def post(r):
            return {'weak': False, 'val': val, 'norm': norm, 'unit': unit, 'sc': enc(1.0),
                    'Z': enc(Z.T), 'ps': enc(r[0]), 'sxx': enc(r[1]), 'txz': enc(r[2]),
                    'szz': enc(r[3]), 'rho': enc(r[4]),
                    'other': [] if r[5] is None else enc(r[5])}
        return self.event('Principal', i, call, post, args=(Z,))

    def principal_weak(self, i, Z, unit, val, norm, sc=None):
        m = self.models[i]
        def post(r):
            return {'weak': True, 'val': val, 'norm': norm, 'unit': unit,
                    'sc': enc(2.6 if sc is None else sc), 'Z': enc(Z.T),
                    'ps': enc(np.ravel(r)), 'sxx': [], 'txz': [], 'szz': [], 'rho': [],
                    'other': []}
        kw = self.opt({'unit': unit, 'val': val, 'normalize': norm,
                       'sc': 2.6 if sc is None else sc},
                      {'unit': 'kPa', 'val': 'min', 'normalize': False, 'sc': 2.6})
        return self.event('Principal', i, lambda: m.principal_stress_weaklayer(Z, **kw), post, args=(Z,), rep=lambda r: [r])

    # -------------------------------------------------------------- relations
    def relate(self, kind, i, j, a, b, pts):
        def side(s):
            return {'li': enc(np.asarray(s['li'], float)), 'mi': enc(np.asarray(s['mi'], float)),
                    'ki': bools(s['ki']), 'phi': enc(s['phi'])}
        self.event('Relate', i, lambda: None, lambda r: {
            'kind': kind, 'j': j, 'a': side(a), 'b': side(b),
            'pts': [[enc(u), enc(v)] for u, v in pts]})

    def linear(self, i, c, load, zz):
        self.event('Linear', i, lambda: None, lambda r: {
            'c': enc(c), 'load': enc(load), 'zz': enc(zz)})

    # ------------------------------------------------------------- rejections
    def reject(self, i, name, want, fn, args=()):
        e = self._ev('Reject', i, '')
        e.update(call=name, want=want, mro=[])
        before = digest(*args)
        try:
            with quiet():
                fn()
        except Timeout:
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as x:      # noqa
            e['exc'] = '%s: %s' % (type(x).__name__, str(x)[:200])
            e['mro'] = [c.__name__ for c in type(x).__mro__]
        try:
            e['proj'] = self._proj(i)
        except Exception as x:      # noqa
            e['ev'], e['exc'] = 'Broken', 'projection: %s' % x
        e['args'] = [before, digest(*args)]
        self._write(e)

    def compare(self, name, i, both):
        """Two ways to the same answer: both() -> x, y, za, zb."""
        def post(r):
            return {'name': name, 'rep': [[enc(np.ravel(r[0])), enc(np.ravel(r[1]))]] + [
                [enc(a), enc(b)] for a, b in zip(np.asarray(r[2]), np.asarray(r[3]))]}
        return self.event('Compare', i, both, post)

    # ------------------------------------------------------------------ tools
    def tool(self, fn, call, post, args=()):
        return self.event('Tool', 0, call, lambda r: dict(post(r), fn=fn), args=args)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            yield


# ------------------------------------------------------------------ layerings
_LAWS = {'hard': (350., 120., 93.8), 'medium': (270., 120., 30.), 'soft': (180., 120., 5.)}
_DB = {'a': 'hms', 'b': 'smh', 'c': 'hsh', 'd': 'shs', 'e': 'hss', 'f': 'ssh', 'h': 'mmm',
       'soft': 'sss', 'medium': 'mmm', 'hard': 'hhh'}
PROFILES = list(_DB) + ['comp']


def laydef(kind, arg=None, name='', C0=6.5, C1=4.4, nu=0.25, law=True):
    return {'kind': kind, 'arg': arg, 'name': name, 'C0': float(C0), 'C1': float(C1),
            'nu': float(nu), 'law': law}


def layenc(lay):
    rows = [] if lay['kind'] != 'list' else enc(np.asarray(lay['arg'], float))
    return {'kind': lay['kind'], 'name': lay['name'], 'rows': rows, 'C0': enc(lay['C0']),
            'C1': enc(lay['C1']), 'nu': enc(lay['nu'])}


def slab_of(lay):
    """Plain numbers of a layering, only used to choose requests."""
    nu = lay['nu']
    if lay['kind'] == 'profile':
        if lay['name'] == 'comp':
            rows = [(240., 200., 5.23)]
        else:
            ab = {'h': 'hard', 'm': 'medium', 's': 'soft'}
            rows = [_LAWS[ab[c]] for c in _DB[lay['name']]]
    else:
        arg = [[240., 200.]] if lay['kind'] == 'default' else lay['arg']
        rows = [(float(r), float(h), lay['C0']*1e3*(r/917.)**lay['C1'])
                for r, h in np.asarray(arg, float)]
    return [(r, h, E, E/(2*(1 + nu)), nu) for r, h, E in rows]


def pick(rng, li, ki, step, n):
    """Intervals (segment, start, length) at which balances are checked."""
    out = []
    segs = [j for j in range(len(li)) if li[j] > 0]
    for j in segs:
        if ki[j]:
            ln = min(step, li[j])
            out += [(j, 0.0, ln), (j, li[j] - ln, ln)]
        else:
            out.append((j, 0.0, float(li[j])))
    for _ in range(n):
        j = segs[rng.integers(len(segs))]
        if ki[j]:
            ln = min(step, li[j])
            out.append((j, float((li[j] - ln)*rng.random()), ln))
        else:
            x = float(li[j]*rng.random()*0.9)
            out.append((j, x, float((li[j] - x)*rng.random())))
    return out
