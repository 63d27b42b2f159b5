------------------------------- MODULE SnowMC -------------------------------
(***************************************************************************)
(* The mechanics itself, on a grid of slabs, weak layers, loads, slopes and *)
(* states: the laws which the properties state (invariance of laminates,    *)
(* symmetry, linearity, equilibrium, closure of the stress integrals, wedge *)
(* limits, order of the contact lengths) hold of the specification, so that *)
(* its formulas, which judge the code, are checked against each other.      *)
(***************************************************************************)
EXTENDS Layout, TLC

CONSTANTS MaxLayers

VARIABLES slab, weak, p, phi
vars == <<slab, weak, p, phi>>

Rhos == {R("90"), R("240"), R("420")}
Hs   == {R("35"), R("160.5")}
Nus  == {R("0.25"), R("0.4")}
Weaks == {<<R("0.25"), R("0.25"), R("30")>>, <<R("4.1"), R("0.1"), R("8")>>}
Ps   == {Zero, R("0.003")}
Phis == {R("-52"), R("-17.5"), Zero, R("38")}
\* states the governing equations are tried on
Zs == {<<R("0.01"), R("-2e-5"), R("0.13"), R("3e-4"), R("-4e-4"), R("1.7e-6")>>,
       <<R("-0.3"), R("1e-4"), R("1.4"), R("-8e-4"), R("9e-4"), R("-3e-6")>>,
       <<Zero, Zero, Zero, Zero, R("1e-3"), Zero>>}

Init == /\ slab = <<>> /\ weak \in Weaks /\ p \in Ps /\ phi \in Phis
AddLayer(rho, h, nu) ==
  /\ Len(slab) < MaxLayers
  /\ slab' = Append(slab, Row(rho, h, BergfeldDefault(rho), nu))
  /\ UNCHANGED <<weak, p, phi>>
Next == \E rho \in Rhos, h \in Hs, nu \in Nus : AddLayer(rho, h, nu)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- helpers
Some == Len(slab) > 0
Eq9(a, b, mag) == RNear(a, b, R("1e-9") \otimes mag)
Eqr(a, b) == Eq9(a, b, RAbs(a) \oplus RAbs(b))
MOf(s, f) == Mech(s, weak[3], FoundKn(weak[1], weak[2], weak[3]), FoundKt(weak[1], weak[2], weak[3]), p, f)
M == MOf(slab, phi)
Halves(s) == [k \in 1..(2*Len(s)) |->
   LET r == s[(k + 1) \div 2] IN <<r[1], r[2] \otimes Half, r[3], r[4], r[5]>>]
NegV(v) == [k \in 1..Len(v) |-> RNeg(v[k])]
Mirror(z) == <<RNeg(z[1]), z[2], z[3], RNeg(z[4]), RNeg(z[5]), z[6]>>
\* size of the terms of z', component by component
Mags(MM, z) == LET a == RVAbs(ZPrime(MM, z))
                   b == RVAbs(ZPrime(Unloaded(MM), [k \in 1..6 |-> RAbs(z[k])]))
                   c == RVAbs(ZPrime(MM, [k \in 1..6 |-> Zero]))
                   d == <<Zero, Zero, Zero, Zero, Zero, Zero>>
               IN RVAdd(RVAdd(a, b), RVAdd(c, d))
Close(u, v, mg) == \A k \in 1..6 : RNear(u[k], v[k], R("1e-8") \otimes mg[k])

\* -------------------------------------------------- laminate theory (C03)
LaminateSplit == Some =>
  LET a == Laminate(slab) b == Laminate(Halves(slab)) h == Thick(slab)
      as == a.A \otimes h
  IN /\ Eqr(a.A, b.A) /\ Eq9(a.B, b.B, as) /\ Eqr(a.D, b.D) /\ Eqr(a.S, b.S)
     /\ Eqr(h, Thick(Halves(slab)))
     /\ Eq9(CogZ(slab), CogZ(Halves(slab)), h)
     /\ Eqr(Weight(slab), Weight(Halves(slab)))
LaminateReversed == Some =>
  LET a == Laminate(slab) b == Laminate(Rev(slab)) h == Thick(slab)
      as == a.A \otimes h
  IN /\ Eqr(a.A, b.A) /\ Eq9(a.B, RNeg(b.B), as) /\ Eqr(a.D, b.D) /\ Eqr(a.S, b.S)
     /\ Eq9(CogZ(slab), RNeg(CogZ(Rev(slab))), h)
LaminatePositive == Some =>
  LET a == Laminate(slab) IN
  /\ RLt(Zero, a.A) /\ RLt(Zero, a.D) /\ RLt(Zero, a.S) /\ RLt(a.K0, Zero)
  /\ RLt(Zero, BendS(M)) /\ RLe(BendS(M), M.D)
\* homogeneous slabs: the textbook values
Homogeneous == Some /\ (\A k \in 1..Len(slab) : slab[k][1] = slab[1][1] /\ slab[k][5] = slab[1][5]) =>
  LET a == Laminate(slab) h == Thick(slab) E == PlaneStrain(slab[1][3], slab[1][5]) IN
  /\ Eqr(a.A, E \otimes h) /\ Eq9(a.B, Zero, a.A \otimes h)
  /\ Eqr(a.D, (E \otimes Cube(h)) \oslash R("12"))
  /\ Eq9(CogZ(slab), Zero, h)

\* ------------------------------------------------------------- loads (C04)
LoadMagnitude == Some =>
  \A f \in {Weight(slab), p, SkierForce(R("80"))} :
    /\ Eqr(Sq(Normal(f, phi)) \oplus Sq(Tangential(f, phi)), Sq(f))
    /\ Eqr(Normal(f, phi), Normal(f, RNeg(phi)))
    /\ Eqr(Tangential(f, phi), RNeg(Tangential(f, RNeg(phi))))
\* a slope rising to the right (counterclockwise) pulls to the left
LoadDirection == RLt(Zero, phi) => RLt(Tangential(One, phi), Zero)

\* ------------------------------------------------- equilibrium (C06, C09)
\* the uniform state is an equilibrium of the bedded slab
UniformState == Some =>
  LET z == <<UniformU(M), Zero, UniformW(M), Zero, UniformPsi(M), Zero>>
      d == ZPrime(M, z)
      m == Mags(M, z)
  IN Close(d, [k \in 1..6 |-> Zero], RVAdd(m, [k \in 1..6 |-> R("1e-12")]))
\* section forces of z' are the resultants of the tractions
Resultants == Some => \A z \in Zs : \A MM \in {M, Unsupported(M)} :
  LET d == ZPrime(MM, z)
      dz == <<Zero, d[2], Zero, d[4], Zero, d[6]>>
  IN /\ RNear(NForce(MM, dz), DN(MM, z), R("1e-8") \otimes
              ((MM.A \otimes RAbs(d[2])) \oplus (RAbs(MM.B) \otimes RAbs(d[6]))))
     /\ RNear(MMoment(MM, dz), DM(MM, z), R("1e-8") \otimes
              ((RAbs(MM.B) \otimes RAbs(d[2])) \oplus (MM.D \otimes RAbs(d[6]))))
     /\ RNear(MM.S \otimes (d[4] \oplus z[6]), DV(MM, z), R("1e-8") \otimes MM.S \otimes
              (RAbs(d[4]) \oplus RAbs(z[6])))
MirrorOde == Some => \A z \in Zs : \A u \in BOOLEAN :
  LET A == IF u THEN M ELSE Unsupported(M)
      B == IF u THEN MOf(slab, RNeg(phi)) ELSE Unsupported(MOf(slab, RNeg(phi)))
  IN Close(NegV(Mirror(ZPrime(A, z))), ZPrime(B, Mirror(z)), Mags(A, z))
LinearOde == Some => \A y, z \in Zs :
  LET o == ZPrime(M, [k \in 1..6 |-> Zero])
      s == ZPrime(M, RVAdd(y, z))
  IN Close(RVAdd(s, o), RVAdd(ZPrime(M, y), ZPrime(M, z)), RVAdd(Mags(M, y), Mags(M, z)))

\* --------------------------------------------------------- weak layer (C11)
WeakLayer == Some => \A z \in Zs :
  /\ Eqr(Tau(M, z), M.kt \otimes M.t \otimes Gamma(M, z))
  /\ Eqr(Sig(M, z), M.kn \otimes M.t \otimes Eps(M, z))
  /\ (RLt(Zero, z[3]) => RLt(Sig(M, z), Zero))
\* energy release rates (C12)
Rates == Some => \A z \in Zs :
  /\ RLe(Zero, GI(M, z)) /\ RLe(Zero, GII(M, z))
  /\ Eqr(GI(M, z), RNeg(Half \otimes Sig(M, z) \otimes z[3]))
  /\ Eqr(GII(M, z), Half \otimes Tau(M, z) \otimes ShearDisp(M, z))

\* ---------------------------------------------------- slab stresses (C14)
\* the shear stress ends in the weak-layer traction, the transverse normal
\* stress in the weak-layer traction less the couple of the shear traction
StressClosure == Some => \A z \in Zs :
  LET n == Len(slab)
      hh == Thick(slab) \otimes Half
      d1 == ZPrime(M, z)
      d2 == ZSecond(M, z)
      sn == RSin(RRad(phi)) cs == RCos(RRad(phi))
      txz == (M.pt \oplus StressIntegral(slab, n, hh, d1[2], d1[6])) \ominus (sn \otimes WeightAbove(slab, n, hh))
      szz == (RNeg(M.pn) \oplus StressIntegral2(slab, n, hh, d2[2], d2[6])) \ominus (cs \otimes WeightAbove(slab, n, hh))
      dtau == M.kt \otimes (d1[1] \oplus (hh \otimes d1[5]) \ominus (M.t \otimes Half \otimes d1[4]))
      m1 == M.A \otimes (RAbs(d1[2]) \oplus (M.h \otimes RAbs(d1[6])))
      m2 == M.A \otimes M.h \otimes (RAbs(d2[2]) \oplus (M.h \otimes RAbs(d2[6])))
  IN /\ RNear(txz, Tau(M, z), R("1e-8") \otimes (m1 \oplus RAbs(M.qt) \oplus RAbs(M.pt)))
     /\ RNear(szz, Sig(M, z) \ominus (M.t \otimes Half \otimes dtau),
              R("1e-8") \otimes (m2 \oplus RAbs(M.qn) \oplus RAbs(M.pn)))
     /\ Eqr(WeightAbove(slab, n, hh), Weight(slab))
StressSplit == Some => \A z \in Zs :
  LET hh == Thick(slab) \otimes Half
      n == Len(slab)
      mg == M.A \otimes (RAbs(z[2]) \oplus (M.h \otimes RAbs(z[6])))
  IN /\ RNear(StressIntegral(slab, n, hh, z[2], z[6]),
              StressIntegral(Halves(slab), 2*n, hh, z[2], z[6]), R("1e-9") \otimes mg)
     /\ RNear(StressIntegral2(slab, n, hh, z[2], z[6]),
              StressIntegral2(Halves(slab), 2*n, hh, z[2], z[6]), R("1e-9") \otimes mg \otimes M.h)

\* ---------------------------------------------------- vertical faces (C08)
WedgeLaws == Some =>
  LET W == Wedge(slab, phi)
      V == Wedge(slab, RNeg(phi))
      S == Wedge(Halves(slab), phi)
      h == Thick(slab)
      tn == RTan(RRad(phi))
  IN /\ Eqr(W.m, RNeg(V.m)) /\ Eqr(W.mx, V.mx) /\ Eqr(W.mz, RNeg(V.mz))
     /\ Eqr(W.m, S.m) /\ Eqr(W.mx, S.mx) /\ Eq9(W.mz, S.mz, h \otimes RAbs(W.m))
     /\ (phi = Zero => W.m = Zero /\ W.mx = Zero /\ REq(W.mz, Zero))
     \* homogeneous: a triangle with its centroid at a third of its legs
     /\ ((\A k \in 1..Len(slab) : slab[k][1] = slab[1][1]) =>
           /\ Eqr(W.m, DensityUnit \otimes slab[1][1] \otimes Half \otimes Sq(h) \otimes tn)
           /\ Eqr(W.mx, (W.m \otimes h \otimes tn) \oslash Three)
           /\ Eqr(W.mz, RNeg(W.m \otimes h) \oslash R("6")))

\* ----------------------------------------------- contact lengths (C16, C19)
RECURSIVE Bisect(_, _, _, _)
Bisect(f(_), lo, hi, n) ==
  IF n = 0 THEN (lo \oplus hi) \otimes Half
  ELSE LET mid == (lo \oplus hi) \otimes Half IN
       IF RLt(f(mid), Zero) THEN Bisect(f, mid, hi, n - 1) ELSE Bisect(f, lo, mid, n - 1)
Far == R("1e6")
SpringGrid == {R("1e3"), R("1e5"), R("1e7")}
NormalGrid == {R("0.1"), R("3"), R("100")}
Collapse == {R("0.4"), R("6")}
\* a closer look at the polynomials for one weak layer and load only
Once == Some /\ p = Zero /\ phi \in {Zero, R("38")} /\ Len(slab) = 1
ContactOrder == Once => \A kR \in SpringGrid, kN \in NormalGrid, tc \in Collapse :
  LET bs == BendS(M) ss == M.S qn == M.qn
      f1(x) == RSum(FirstContactTerms(bs, ss, kR, kN, tc, qn, x))
      f2(x) == RSum(FullContactTerms(bs, ss, kR, kN, tc, qn, x))
      f3(x) == RSum(SteadyContactTerms(bs, ss, kR, kN, R("1e6"), tc, qn, x))
      a1 == Bisect(f1, Zero, Far, 70)
      a2 == Bisect(f2, Zero, Far, 70)
      a3 == Bisect(f3, Zero, Far, 70)
  IN /\ RLt(Zero, a1) /\ RLt(a1, a2) /\ RLt(a2, Far)
     /\ RLt(Zero, a3) /\ RLt(a3, Far)
\* without rotational resistance of the rested part the steady-state condition
\* is the full-contact condition
SteadyLimit == Once => \A kR \in SpringGrid, kN \in NormalGrid, tc \in Collapse :
  \A x \in {R("100"), R("800"), R("5000")} :
  LET a == FullContactTerms(BendS(M), M.S, kR, kN, tc, M.qn, x)
      b == SteadyContactTerms(BendS(M), M.S, kR, kN, Zero, tc, M.qn, x)
  IN RNear(RSum(a), RSum(b), R("1e-9") \otimes RSum(RVAbs(a)))

\* ---------------------------------------------------- material laws (C19)
Increasing(f(_)) == \A a, b \in Rhos : RLt(a, b) => RLt(f(a), f(b))
ASSUME Increasing(BergfeldDefault)
ASSUME Increasing(LAMBDA r : Gerling(r, R("6"), R("4.6")))
ASSUME Increasing(Scapozza) /\ Increasing(Sigrist)
ASSUME \A n \in ProfileNames : Len(Profile(n)) > 0
=============================================================================
