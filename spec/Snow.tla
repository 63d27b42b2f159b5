-------------------------------- MODULE Snow --------------------------------
(***************************************************************************)
(* Mechanics of a layered slab on a weak layer, as weac documents it:       *)
(* material laws, profile database, laminate theory, loads, kinematics,     *)
(* constitutive law, equilibrium, boundary tractions, energy release rates  *)
(* and slab stresses.  Units: mm, N, MPa, t (densities are given in kg/m^3).*)
(*                                                                         *)
(* A solution vector is the 6-tuple z = <<u, u', w, w', psi, psi'>>.        *)
(* A slab is a sequence (top to bottom) of <<rho, h, E, G, nu>>.            *)
(***************************************************************************)
EXTENDS Reals64, Integers, Sequences

\* ---------------------------------------------------------------- constants
Zero  == R("0")
One   == R("1")
Two   == R("2")
Three == R("3")
Four  == R("4")
Half  == R("0.5")
Grav  == R("9810")           \* mm/s^2
LSki  == R("1000")           \* mm
KShear == R("5") \oslash R("6")
Milli == R("0.001")
Kilo  == R("1000")
DensityUnit == R("1e-12")    \* kg/m^3 -> t/mm^3

Sq(x)   == x \otimes x
Cube(x) == x \otimes x \otimes x
SumSeq(f, n) == RSum([i \in 1..n |-> f[i]])

\* ------------------------------------------------------------ material laws
Bergfeld(rho, rho0, C0, C1) == C0 \otimes Kilo \otimes RPow(rho \oslash rho0, C1)
RhoIce == R("917")
BergfeldDefault(rho) == Bergfeld(rho, RhoIce, R("6.5"), R("4.4"))
Gerling(rho, C0, C1) == C0 \otimes R("1e-10") \otimes RPow(rho, C1)
Scapozza(rho) == R("5070") \otimes RPow(rho \oslash RhoIce, R("5.13"))
Sigrist(rho) == R("240") \otimes RPow(rho \oslash RhoIce, R("2.44"))   \* kPa

ShearModulus(E, nu) == E \oslash (Two \otimes (One \oplus nu))
PlaneStrain(E, nu)  == E \oslash (One \ominus Sq(nu))

\* -------------------------------------------------------- profile database
Soft   == <<R("180"), R("120"), R("5")>>
Medium == <<R("270"), R("120"), R("30")>>
Hard   == <<R("350"), R("120"), R("93.8")>>
ProfileNames == {"a", "b", "c", "d", "e", "f", "h", "soft", "medium", "hard", "comp"}
Profile(name) ==
  CASE name = "a" -> <<Hard, Medium, Soft>>
    [] name = "b" -> <<Soft, Medium, Hard>>
    [] name = "c" -> <<Hard, Soft, Hard>>
    [] name = "d" -> <<Soft, Hard, Soft>>
    [] name = "e" -> <<Hard, Soft, Soft>>
    [] name = "f" -> <<Soft, Soft, Hard>>
    [] name = "h" -> <<Medium, Medium, Medium>>
    [] name = "soft" -> <<Soft, Soft, Soft>>
    [] name = "medium" -> <<Medium, Medium, Medium>>
    [] name = "hard" -> <<Hard, Hard, Hard>>
    [] name = "comp" -> <<<<R("240"), R("200"), R("5.23")>>>>

\* A layer <<rho, h>> with its modulus becomes a row <<rho, h, E, G, nu>>
Row(rho, h, E, nu) == <<rho, h, E, ShearModulus(E, nu), nu>>
SlabFromLayers(layers, C0, C1, nu) ==
  [i \in 1..Len(layers) |->
     Row(layers[i][1], layers[i][2], Bergfeld(layers[i][1], RhoIce, C0, C1), nu)]
SlabFromProfile(name, nu) ==
  LET p == Profile(name) IN [i \in 1..Len(p) |-> Row(p[i][1], p[i][2], p[i][3], nu)]
DefaultLayers == <<<<R("240"), R("200")>>>>

\* --------------------------------------------------------- slab geometry
Heights(slab)   == [i \in 1..Len(slab) |-> slab[i][2]]
Densities(slab) == [i \in 1..Len(slab) |-> DensityUnit \otimes slab[i][1]]
Thick(slab)     == RSum(Heights(slab))
\* interface coordinates, z[1] = -h/2 (top) ... z[n+1] = +h/2 (bottom)
PlyZ(slab) ==
  LET hh == Thick(slab) \otimes Half IN
  [i \in 1..(Len(slab) + 1) |-> RSum(SubSeq(Heights(slab), 1, i - 1)) \ominus hh]
CogZ(slab) ==
  LET z == PlyZ(slab)
      m == RVMul(Heights(slab), Densities(slab))
      c == [i \in 1..Len(slab) |-> (z[i] \oplus z[i + 1]) \otimes Half]
  IN RDot(m, c) \oslash RSum(m)

\* ------------------------------------------------------------- stiffnesses
Laminate(slab) ==
  LET z == PlyZ(slab)
      n == Len(slab)
      E == [i \in 1..n |-> PlaneStrain(slab[i][3], slab[i][5])]
      A == RDot(E, [i \in 1..n |-> z[i + 1] \ominus z[i]])
      B == RDot(E, [i \in 1..n |-> Half \otimes (Sq(z[i + 1]) \ominus Sq(z[i]))])
      D == RDot(E, [i \in 1..n |-> (Cube(z[i + 1]) \ominus Cube(z[i])) \oslash Three])
      S == KShear \otimes RDot([i \in 1..n |-> slab[i][4]], Heights(slab))
  IN [A |-> A, B |-> B, D |-> D, S |-> S, K0 |-> Sq(B) \ominus (A \otimes D)]
FoundKn(E, nu, t) == PlaneStrain(E, nu) \oslash t
FoundKt(E, nu, t) == ShearModulus(E, nu) \oslash t

\* ------------------------------------------------------------------- loads
\* phi in degrees, counterclockwise positive; tangential loads act along +x
Normal(f, phi)     == f \otimes RCos(RRad(phi))
Tangential(f, phi) == RNeg(f \otimes RSin(RRad(phi)))
Weight(slab)       == Grav \otimes RDot(Heights(slab), Densities(slab))
SkierForce(m)      == (Milli \otimes m \otimes Grav) \oslash LSki

\* Everything the equations of one configuration need.
Mech(slab, t, kn, kt, p, phi) ==
  LET lam == Laminate(slab)
      q == Weight(slab)
  IN [A |-> lam.A, B |-> lam.B, D |-> lam.D, S |-> lam.S,
      det |-> RNeg(lam.K0), h |-> Thick(slab), zs |-> CogZ(slab), t |-> t,
      kn |-> kn, kt |-> kt,
      qn |-> Normal(q, phi), qt |-> Tangential(q, phi),
      pn |-> Normal(p, phi), pt |-> Tangential(p, phi)]
Unsupported(M) == [M EXCEPT !.kn = Zero, !.kt = Zero]
Unloaded(M) == [M EXCEPT !.qn = Zero, !.qt = Zero, !.pn = Zero, !.pt = Zero]

\* --------------------------------------------- kinematics and constitution
UAt(z, z0)   == z[1] \oplus (z0 \otimes z[5])
DuAt(z, z0)  == z[2] \oplus (z0 \otimes z[6])
NForce(M, z) == (M.A \otimes z[2]) \oplus (M.B \otimes z[6])
MMoment(M, z) == (M.B \otimes z[2]) \oplus (M.D \otimes z[6])
VForce(M, z) == M.S \otimes (z[4] \oplus z[5])
\* weak layer: shear displacement of the slab's bottom face relative to ground
ShearDisp(M, z) == UAt(z, M.h \otimes Half) \ominus (M.t \otimes Half \otimes z[4])
Tau(M, z)   == M.kt \otimes ShearDisp(M, z)
Sig(M, z)   == RNeg(M.kn \otimes z[3])
Eps(M, z)   == RNeg(z[3] \oslash M.t)
Gamma(M, z) == ShearDisp(M, z) \oslash M.t

\* ------------------------------------------------------ equilibrium (ODE)
\* N' = tau - qt - pt
\* M' = V + (h+t)/2 tau - zs qt + h/2 pt
\* V' = kn w - qn - pn
DN(M, z) == Tau(M, z) \ominus M.qt \ominus M.pt
DM(M, z) == VForce(M, z) \oplus ((M.h \oplus M.t) \otimes Half \otimes Tau(M, z))
            \ominus (M.zs \otimes M.qt) \oplus (M.h \otimes Half \otimes M.pt)
DV(M, z) == (M.kn \otimes z[3]) \ominus M.qn \ominus M.pn
\* z' from equilibrium and the constitutive law
ZPrime(M, z) ==
  LET dn == DN(M, z)
      dm == DM(M, z)
      dv == DV(M, z)
      upp == ((M.D \otimes dn) \ominus (M.B \otimes dm)) \oslash M.det
      ppp == ((M.A \otimes dm) \ominus (M.B \otimes dn)) \oslash M.det
      wpp == (dv \oslash M.S) \ominus z[6]
  IN <<z[2], upp, z[4], wpp, z[6], ppp>>
\* z'' : derivative of ZPrime along the solution (loads are constant in x)
ZSecond(M, z) == ZPrime(Unloaded(M), ZPrime(M, z))

\* uniform solution of the infinitely extended, bedded slab
UniformW(M)   == (M.qn \oplus M.pn) \oslash M.kn
UniformPsi(M) == RNeg(((M.h \oplus M.t) \otimes Half \otimes (M.qt \oplus M.pt))
                      \ominus (M.zs \otimes M.qt) \oplus (M.h \otimes Half \otimes M.pt)) \oslash M.S
UniformU(M)   == ((M.qt \oplus M.pt) \oslash M.kt) \ominus (M.h \otimes Half \otimes UniformPsi(M))

\* wedge between slope-normal and vertical end face: width (h/2 - z) tan(phi)
Wedge(slab, phi) ==
  LET n == Len(slab)
      z == PlyZ(slab)
      hh == Thick(slab) \otimes Half
      tn == RTan(RRad(phi))
      rho == Densities(slab)
      \* with s = h/2 - z: integrals of s, s^2, over each layer
      s0(i) == hh \ominus z[i]
      s1(i) == hh \ominus z[i + 1]
      m  == RDot(rho, [i \in 1..n |-> tn \otimes Half \otimes (Sq(s0(i)) \ominus Sq(s1(i)))])
      ms == RDot(rho, [i \in 1..n |-> tn \otimes ((Cube(s0(i)) \ominus Cube(s1(i))) \oslash Three)])
  IN [m |-> m,
      mz |-> (hh \otimes m) \ominus ms,              \* mass times zs
      mx |-> Half \otimes tn \otimes ms]             \* mass times xs
WedgeN(slab, phi) == RNeg(Grav \otimes Wedge(slab, phi).m \otimes RSin(RRad(phi)))
WedgeV(slab, phi) == Grav \otimes Wedge(slab, phi).m \otimes RCos(RRad(phi))
WedgeM(slab, phi) == LET W == Wedge(slab, phi) IN
  RNeg(Grav \otimes ((W.mx \otimes RCos(RRad(phi))) \oplus (W.mz \otimes RSin(RRad(phi)))))

\* --------------------------------------------------- energy release rates
GI(M, z)  == Sq(Sig(M, z)) \oslash (Two \otimes M.kn)
GII(M, z) == Sq(Tau(M, z)) \oslash (Two \otimes M.kt)

\* -------------------------------------------------------------- potentials
BendS(M) == M.D \ominus (Sq(M.B) \oslash M.A)
\* energy stored per unit length in the slab (bending about the neutral axis)
SlabEnergy(M, z) ==
  LET n == NForce(M, z)
      b == MMoment(M, z) \ominus ((M.B \oslash M.A) \otimes n)
  IN Half \otimes ((Sq(n) \oslash M.A) \oplus (Sq(b) \oslash BendS(M))
                  \oplus (Sq(VForce(M, z)) \oslash M.S))
\* ... and in the weak layer
WeakEnergy(M, z) == GI(M, z) \oplus GII(M, z)
LeverWork(M, z) == R("0.25") \otimes M.t \otimes Tau(M, z) \otimes (z[4] \oplus z[5])
\* terms of the work of the loads per unit length (weight at the centre of
\* gravity, surface load on the top face)
LoadWork(M, z) ==
  <<(M.qn \oplus M.pn) \otimes z[3], M.qt \otimes UAt(z, M.zs),
    M.pt \otimes UAt(z, RNeg(Half \otimes M.h))>>

\* ------------------------------------------------- unit conversion factors
LengthUnit(u) == CASE u = "m" -> Milli [] u = "cm" -> R("0.1") [] u = "mm" -> One [] u = "um" -> Kilo
StressUnit(u) == CASE u = "kPa" -> Kilo [] u = "MPa" -> One
EnergyUnit(u) == CASE u = "J/m^2" -> Kilo [] u = "kJ/m^2" -> One [] u = "N/mm" -> One
DegPerRad == R("180") \oslash R("3.141592653589793")
AngleUnit(u) == IF u \in {"deg", "degree", "degrees"} THEN DegPerRad ELSE One

\* ------------------------------------------------------------ slab stresses
\* Exact stresses at mesh points.  mesh[k] = [z, layer]; z measured from the
\* midplane.  dz are the x-derivatives of u0 and psi (second / third).
\* Integral over [top, z] of E'(z)(a + z b) dz:
StressIntegral(slab, layer, zc, a, b) ==
  LET zz == PlyZ(slab)
      part(i, z1) == PlaneStrain(slab[i][3], slab[i][5]) \otimes
          ((a \otimes (z1 \ominus zz[i])) \oplus (b \otimes Half \otimes (Sq(z1) \ominus Sq(zz[i]))))
  IN RSum([i \in 1..layer |-> part(i, IF i = layer THEN zc ELSE zz[i + 1])])
\* Integral over [top, z] of StressIntegral
StressIntegral2(slab, layer, zc, a, b) ==
  LET zz == PlyZ(slab)
      E(i) == PlaneStrain(slab[i][3], slab[i][5])
      \* within layer i, from its top z_i to z1, of E(a s + b/2 (s^2...)) plus the
      \* value accumulated above times the thickness
      inner(i, z1) == E(i) \otimes
          ((a \otimes Half \otimes Sq(z1 \ominus zz[i])) \oplus
           (b \otimes Half \otimes (((Cube(z1) \ominus Cube(zz[i])) \oslash Three)
                                    \ominus (Sq(zz[i]) \otimes (z1 \ominus zz[i])))))
      above(i) == IF i = 1 THEN Zero ELSE StressIntegral(slab, i - 1, zz[i], a, b)
      part(i, z1) == inner(i, z1) \oplus (above(i) \otimes (z1 \ominus zz[i]))
  IN RSum([i \in 1..layer |-> part(i, IF i = layer THEN zc ELSE zz[i + 1])])
\* Weight (per unit area) above depth z
WeightAbove(slab, layer, zc) ==
  LET zz == PlyZ(slab) IN
  Grav \otimes RSum([i \in 1..layer |->
     DensityUnit \otimes slab[i][1] \otimes ((IF i = layer THEN zc ELSE zz[i + 1]) \ominus zz[i])])

\* --------------------------------------------------------- touchdown theory
\* Contact conditions of the substitute-spring beam; bs = bending stiffness,
\* ss = shear stiffness, kR/kN = springs of the bedded part, kr = rotational
\* spring of the part lying on the ground.  Terms are returned as a sequence
\* so that residuals can be judged relative to their size.
FirstContactTerms(bs, ss, kR, kN, tc, qn, x) ==
  <<RPow(x, R("4")) \oslash (R("8") \otimes bs),
    Cube(x) \oslash (Two \otimes kR),
    Sq(x) \oslash (Two \otimes ss),
    x \oslash kN,
    RNeg(tc \oslash qn)>>
FullContactTerms(bs, ss, kR, kN, tc, qn, x) ==
  LET P(n) == RPow(x, RInt(n)) IN
  <<Sq(ss) \otimes kR \otimes kN \otimes qn \otimes P(6),
    R("6") \otimes Sq(ss) \otimes bs \otimes kN \otimes qn \otimes P(5),
    R("30") \otimes bs \otimes ss \otimes kR \otimes kN \otimes qn \otimes P(4),
    R("48") \otimes bs \otimes qn \otimes Sq(ss) \otimes kR \otimes P(3),
    R("72") \otimes Sq(bs) \otimes qn \otimes ss \otimes kN \otimes P(3),
    R("72") \otimes Sq(bs) \otimes qn \otimes Sq(ss) \otimes P(2),
    R("72") \otimes Sq(bs) \otimes qn \otimes kR \otimes kN \otimes P(2),
    RNeg(R("72") \otimes bs \otimes Sq(ss) \otimes kR \otimes kN \otimes tc \otimes P(2)),
    R("144") \otimes Sq(bs) \otimes ss \otimes kR \otimes qn \otimes x,
    RNeg(R("144") \otimes Sq(bs) \otimes Sq(ss) \otimes kN \otimes tc \otimes x),
    RNeg(R("144") \otimes Sq(bs) \otimes ss \otimes kR \otimes kN \otimes tc)>>
SteadyContactTerms(bs, ss, kR, kN, kr, tc, qn, x) ==
  LET P(n) == RPow(x, RInt(n)) IN
  <<Sq(ss) \otimes kR \otimes kN \otimes qn \otimes P(6),
    R("6") \otimes ss \otimes kN \otimes qn \otimes bs \otimes ss \otimes P(5),
    R("6") \otimes ss \otimes kN \otimes qn \otimes kR \otimes kr \otimes P(5),
    R("30") \otimes bs \otimes ss \otimes kN \otimes qn \otimes (kR \oplus kr) \otimes P(4),
    R("48") \otimes bs \otimes qn \otimes Sq(ss) \otimes kR \otimes P(3),
    R("72") \otimes Sq(bs) \otimes qn \otimes ss \otimes kN \otimes P(3),
    R("72") \otimes bs \otimes qn \otimes kR \otimes kr \otimes kN \otimes P(3),
    R("72") \otimes Sq(bs) \otimes qn \otimes Sq(ss) \otimes P(2),
    R("72") \otimes Sq(bs) \otimes qn \otimes kN \otimes (kR \oplus kr) \otimes P(2),
    R("144") \otimes bs \otimes ss \otimes kR \otimes kr \otimes qn \otimes P(2),
    RNeg(R("72") \otimes bs \otimes Sq(ss) \otimes kR \otimes kN \otimes tc \otimes P(2)),
    R("144") \otimes Sq(bs) \otimes ss \otimes qn \otimes (kR \oplus kr) \otimes x,
    RNeg(R("144") \otimes bs \otimes ss \otimes kN \otimes tc \otimes bs \otimes ss \otimes x),
    RNeg(R("144") \otimes bs \otimes ss \otimes kN \otimes tc \otimes kR \otimes kr \otimes x),
    RNeg(R("144") \otimes Sq(bs) \otimes ss \otimes kN \otimes tc \otimes (kR \oplus kr))>>
=============================================================================
