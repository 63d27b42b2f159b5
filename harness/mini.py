"""Reference beams.

Certificates for the specification: a free beam on an elastic foundation
under a unit end load.  The numbers produced here are not trusted; the
specification re-checks that they satisfy equilibrium and the end loads
(Judge!SubstCl).  Also used to pick requests for which contact exists.
"""
import numpy as np
from scipy.optimize import brentq

GX = np.polynomial.legendre.leggauss(10)[0]          # ascending nodes
KS = 5/6
G0 = 9810.0


class Beam:
    """Laminate and foundation of a configuration (plain numbers)."""

    def __init__(self, slab, weak, p=0.0):
        slab = np.asarray(slab, float)
        self.E, self.nu, self.t = weak
        self.slab, self.p = slab, p
        self.h = slab[:, 1].sum()
        z = np.concatenate(([0], np.cumsum(slab[:, 1]))) - self.h/2
        Ep = slab[:, 2]/(1 - slab[:, 4]**2)
        self.A = (Ep*np.diff(z)).sum()
        self.B = (Ep*np.diff(z**2)).sum()/2
        self.D = (Ep*np.diff(z**3)).sum()/3
        self.S = KS*(slab[:, 3]*slab[:, 1]).sum()
        self.kn = self.E/(1 - self.nu**2)/self.t
        self.kt = self.E/(2*(1 + self.nu))/self.t
        self.q = G0*1e-12*(slab[:, 0]*slab[:, 1]).sum()

    def system(self, kn, kt):
        """Matrix K of z' = K z for the unloaded beam."""
        A, B, D, S, h, t = self.A, self.B, self.D, self.S, self.h, self.t
        det = A*D - B*B
        K = np.zeros((6, 6))
        K[0, 1] = K[2, 3] = K[4, 5] = 1
        tau = kt*np.array([1, 0, 0, -t/2, h/2, 0])
        V = S*np.array([0, 0, 0, 1, 1, 0])
        dN, dM = tau, V + (h + t)/2*tau
        K[1] = (D*dN - B*dM)/det
        K[5] = (A*dM - B*dN)/det
        K[3, 2] = kn/S
        K[3, 5] = -1
        return K

    def loads(self):
        """Rows for N, M, V."""
        return np.array([[0, self.A, 0, 0, 0, self.B],
                         [0, self.B, 0, 0, 0, self.D],
                         [0, 0, 0, self.S, self.S, 0]])


def modes(bm, ratio):
    lam, vec = np.linalg.eig(bm.system(ratio*bm.kn, ratio*bm.kt))
    # 3 decaying, 3 growing
    order = np.argsort(lam.real)
    return lam[order], vec[:, order]


def unit_beam(bm, ratio, L, dof):
    """Solution function z(x) of the free beam with a unit load at x = 0."""
    lam, vec = modes(bm, ratio)
    ref = np.where(lam.real < 0, 0.0, L)
    Q = bm.loads()
    def basis(x):
        return vec*np.exp(lam*(x - ref))
    M = np.vstack([Q @ basis(0.0), Q @ basis(L)])
    b = np.zeros(6)
    b[1 if dof == 'rot' else 2] = 1
    # balance columns and rows
    cs = np.abs(M).max(axis=0)
    rs = np.abs(M/cs).max(axis=1)
    c = np.linalg.solve(M/cs/rs[:, None], b/rs)/cs
    def z(x):
        return (basis(x) @ c).real
    def active(x, eps=1e-13):
        """Largest rate of a mode which still matters at x or at its right."""
        amp = np.abs(c*np.exp(lam*(x - ref)))*np.abs(vec).max(axis=0)
        a0 = np.abs(c*np.exp(lam*(0 - ref)))*np.abs(vec).max(axis=0)
        grow = np.abs(c)*np.abs(vec).max(axis=0)
        top = max(a0.max(), 1e-300)
        on = np.where(lam.real < 0, amp > eps*top, grow > eps*top)
        return np.abs(lam[on]).max() if on.any() else 0.0
    return z, active


def certificate(bm, ratio, L, dof):
    z, active = unit_beam(bm, ratio, L, dof)
    cert, x = [], 0.0
    za = z(0.0)
    zl = za
    while x < L*(1 - 1e-12):
        r = active(x)
        ln = L - x if r == 0 else min(L - x, 2.5/r)
        if L - x - ln < 1e-9*L:
            ln = L - x
        zb = z(x + ln)
        g = [z(x + ln/2*(1 + n)) for n in GX]
        cert.append({'len': ln, 'za': za, 'zb': zb, 'g': g})
        za = zb
        x += ln
        if len(cert) > 20000:
            raise RuntimeError('certificate too long')
    return {'zl': zl, 'zr': za, 'cert': cert}


def spring(bm, ratio, L, dof):
    z, _ = unit_beam(bm, ratio, L, dof)
    return abs(1/z(0.0)[4 if dof == 'rot' else 2])


def _first(bm, L, tc, qn):
    bs, ss = bm.D - bm.B**2/bm.A, bm.S
    def f(x):
        kR, kN = spring(bm, 1, L - x, 'rot'), spring(bm, 1, L - x, 'trans')
        return x**4/(8*bs) + x**3/(2*kR) + x**2/(2*ss) + x/kN - tc/qn
    return f


def _full(bm, L, tc, qn):
    bs, ss = bm.D - bm.B**2/bm.A, bm.S
    def f(x):
        kR, kN = spring(bm, 1, L - x, 'rot'), spring(bm, 1, L - x, 'trans')
        c = [ss**2*kR*kN*qn, 6*ss**2*bs*kN*qn, 30*bs*ss*kR*kN*qn,
             24*bs*qn*(2*ss**2*kR + 3*bs*ss*kN),
             72*bs*(bs*qn*(ss**2 + kR*kN) - ss**2*kR*kN*tc),
             144*bs*ss*(bs*kR*qn - bs*ss*kN*tc), -144*bs**2*ss*kR*kN*tc]
        return np.polyval(c, x)
    return f


def transitions(bm, phi, L, cf):
    """First-contact and full-contact lengths, or None if outside the column."""
    qn = (bm.q + bm.p)*np.cos(np.deg2rad(phi))
    tc = cf*bm.t - qn/bm.kn
    if tc <= 0:
        return None
    f1, f2 = _first(bm, L, tc, qn), _full(bm, L, tc, qn)
    lo, hi = L/1000, 0.999*L
    if not (f1(lo) < 0 < f1(hi) and f2(lo) < 0 < f2(hi)):
        return None
    return brentq(f1, lo, hi), brentq(f2, lo, hi), tc, qn
