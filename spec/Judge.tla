-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* The clauses: what is judged about every recorded API call.               *)
(*                                                                         *)
(* After every call the observed values are compared with the mechanics     *)
(* (module Snow) and the geometry (module Layout) for the parameters which  *)
(* the life cycle (module Weac) says are current.  A clause verdict is      *)
(* <<name, TRUE/FALSE>>; which clauses are evaluated depends on the         *)
(* property in focus.  Clauses named MACHINERY... judge the harness.        *)
(***************************************************************************)
EXTENDS Weac, Layout, TLC, Json, IOUtils, SequencesExt

Focus == IOEnv.FOCUS

VARIABLE seen        \* last observed public attributes of each object

In(S) == Focus \in S \/ Focus = "ALL"

\* --------------------------------------------------------------- tolerances
T6  == R("1e-6")
T5  == R("1e-5")
T9  == R("1e-9")
T10 == R("1e-10")
T12 == R("1e-12")
Mag(a, b) == RAbs(a) \oplus RAbs(b)
Near(a, b, rel, floor) == RNear(a, b, (rel \otimes Mag(a, b)) \oplus floor)
NearV(u, v, rel, floor) ==
  Len(u) = Len(v) /\ \A k \in 1..Len(u) : Near(u[k], v[k], rel, floor)
Same(a, b) == Near(a, b, T10, Zero)
SameV(u, v) == NearV(u, v, T10, Zero)
\* entries near each other, or both NaN
SameN(u, v, rel, floor) == Len(u) = Len(v) /\ \A k \in 1..Len(u) :
   (RIsNaN(u[k]) /\ RIsNaN(v[k])) \/ Near(u[k], v[k], rel, floor)
MaxFinite(v) == RMaxAbs(SelectSeq(v, LAMBDA x : RIsFinite(x)))

\* verdicts
K(name, ok) == <<<<name, ok>>>>
KAll(name, n, F(_)) == <<<<name, \A k \in 1..n : F(k)>>>>
Flat(s) == FlattenSeq(s)

\* ------------------------------------------- interpretation of provenance
SlabOf(lay) ==
  CASE lay.kind = "default" -> SlabFromLayers(DefaultLayers, lay.C0, lay.C1, lay.nu)
    [] lay.kind = "profile" -> SlabFromProfile(lay.name, lay.nu)
    [] lay.kind = "list"    -> SlabFromLayers(lay.rows, lay.C0, lay.C1, lay.nu)
WeakOf(w) == <<w[1], w[2], w[3]>>                 \* E, nu, t
KnOf(w) == FoundKn(w[1], w[2], w[3])
KtOf(w) == FoundKt(w[1], w[2], w[3])
\* mechanics of an up-to-date object
MechOf(m, phi) == Mech(m.slab, m.weak[3], KnOf(m.weak), KtOf(m.weak), m.p, phi)

\* --------------------------------------------------- clauses: attributes
ConfigCl(m, pr) ==
  K("config.system", pr.sys = m.sys) \o
  K("config.weak", SameV(<<pr.E, pr.nu, pr.t>>, m.weak)) \o
  K("config.layers", Len(pr.slab) = Len(m.slab) /\ \A k \in 1..Len(m.slab) :
      SameV(<<pr.slab[k][1], pr.slab[k][2], pr.slab[k][5]>>,
            <<m.slab[k][1], m.slab[k][2], m.slab[k][5]>>)) \o
  K("config.load", Same(pr.p, m.p))
StiffCl(m, pr) ==
  IF ~m.upd THEN <<>> ELSE
  LET lam == Laminate(m.slab)
      hh == Thick(m.slab)
      as == lam.A \otimes hh
  IN
  K("moduli", Len(pr.slab) = Len(m.slab) /\ \A k \in 1..Len(m.slab) :
      SameV(<<pr.slab[k][3], pr.slab[k][4]>>, <<m.slab[k][3], m.slab[k][4]>>)) \o
  K("foundation.kn", Same(pr.kn, KnOf(m.weak))) \o
  K("foundation.kt", Same(pr.kt, KtOf(m.weak))) \o
  K("slab.thickness", Same(pr.h, hh)) \o
  K("slab.cog", Near(pr.zs, CogZ(m.slab), T10, T10 \otimes hh)) \o
  K("slab.ply", NearV(pr.ply, PlyZ(m.slab), T10, T10 \otimes hh)) \o
  K("laminate.A11", Same(pr.A, lam.A)) \o
  K("laminate.B11", Near(pr.B, lam.B, T10, T10 \otimes as)) \o
  K("laminate.D11", Same(pr.D, lam.D)) \o
  K("laminate.kA55", Same(pr.S, lam.S)) \o
  K("laminate.K0", Near(pr.K0, lam.K0, T9, T9 \otimes as \otimes as)) \o
  K("laminate.k", Same(pr.k, KShear))
AttrCl(m, pr) == ConfigCl(m, pr) \o StiffCl(m, pr)

\* every object but the acting one; after a query also the acting one
\* (which may recompute what it has, hence up to rounding)
SameProj(a, b) ==
  a = b \/
  LET vec(x) == <<x.E, x.nu, x.t, x.h, x.zs, x.k, x.kn, x.kt, x.A, x.D, x.S, x.p>> \o Flat(x.slab) \o x.ply
      nr(x, y, sc) == x = y \/ RNear(x, y, T12 \otimes sc)
      as == RAbs(a.A) \otimes RAbs(a.h)
  IN a.sys = b.sys /\ a.ctx = b.ctx /\ Len(a.slab) = Len(b.slab) /\ Len(a.ply) = Len(b.ply)
     /\ LET va == vec(a) vb == vec(b) IN \A k \in 1..Len(va) : nr(va[k], vb[k],
          Mag(va[k], vb[k]) \oplus
          (IF k = 5 \/ k > 12 + 5 * Len(a.slab) THEN a.h ELSE Zero))
     /\ nr(a.B, b.B, as) /\ nr(a.K0, b.K0, as \otimes as)
Unchanged(e) == \A r \in 1..Len(e.proj) :
   LET j == e.proj[r][1]
       \* a segmentation which was rejected may have begun
       but(p) == IF e.ev = "Reject" /\ e.call = "noroot" THEN [p EXCEPT !.ctx = <<>>] ELSE p
   IN (j # e.i \/ e.query) => seen[j] = <<>> \/
     (IF j = e.i THEN SameProj(but(seen[j][1]), but(e.proj[r][2])) ELSE seen[j] = <<e.proj[r][2]>>)
StateCl(e) ==
  IF ~In({"C01", "C02", "C03", "C18"}) THEN <<>>
  ELSE Flat([r \in 1..Len(e.proj) |->
         IF mods'[e.proj[r][1]].alive THEN AttrCl(mods'[e.proj[r][1]], e.proj[r][2]) ELSE <<>>])
       \o (IF In({"C01", "C02", "C18"}) THEN
             K(IF e.query THEN "models unchanged by query" ELSE "other models unchanged",
               Unchanged(e)) ELSE <<>>)
PureCl(e) ==
  IF ~In({"C01", "C02", "C19", "C20"}) THEN <<>>
  ELSE K("arguments unchanged", e.args[1] = e.args[2])
\* repeated calls, or the same call on a twin: pairs of flat vectors
RepeatCl(e) ==
  Flat([k \in 1..Len(e.rep) |->
     K("repeated call agrees",
       SameN(e.rep[k][1], e.rep[k][2], T9, T9 \otimes MaxFinite(e.rep[k][1])))])

\* ---------------------------------------------- clauses: a solved system
\* 10-point Gauss-Legendre on [-1, 1]
GW == LET a == R("0.29552422471475287") b == R("0.26926671930999635")
          c == R("0.21908636251598204") d == R("0.14945134915058059")
          f == R("0.06667134430868814")
      IN <<f, d, c, b, a, a, b, c, d, f>>
GaussSum(len, v) == len \otimes Half \otimes RDot(GW, v)

DispScale(h, zz) == RMaxAbs(Flat([k \in 1..Len(zz) |-> <<zz[k][1], zz[k][3], h \otimes zz[k][5]>>]))
ScaleVec(h, D) == <<D, D \oslash h, D, D \oslash h, D \oslash h, (D \oslash h) \oslash h>>
ZNames == <<"u", "u'", "w", "w'", "psi", "psi'">>

\* the balance of one interval: zb - za = integral of z'
IntervalTerms(M, s) ==
  LET G == TLCEval([k \in 1..10 |-> ZPrime(M, s.g[k])])
  IN TLCEval([c \in 1..6 |->
       LET col == TLCEval([k \in 1..10 |-> G[k][c]]) IN
       [res |-> (s.zb[c] \ominus s.za[c]) \ominus GaussSum(s.len, col),
        mag |-> RAbs(s.za[c]) \oplus RAbs(s.zb[c]) \oplus GaussSum(s.len, RVAbs(col))]])
IntervalOk(M, s, D, c, T) ==
  RNear(T[c].res, Zero, (T6 \otimes T[c].mag) \oplus (T9 \otimes ScaleVec(M.h, D)[c]))
OdeCl(MB, MU, samp, D) ==
  LET TT == TLCEval([r \in 1..Len(samp) |->
              IntervalTerms(IF samp[r].bed THEN MB ELSE MU, samp[r])])
  IN Flat([c \in 1..6 |-> KAll("equilibrium." \o ZNames[c], Len(samp),
       LAMBDA r : IntervalOk(MB, samp[r], D, c, TT[r]))])

AllZ(e) == e.ends \o Flat(e.bnd) \o Flat([r \in 1..Len(e.samp) |-> <<e.samp[r].za, e.samp[r].zb>>])
ForceScale(M, e, extra) ==
  ((RAbs(M.qn) \oplus RAbs(M.qt) \oplus RAbs(M.pn) \oplus RAbs(M.pt))
     \otimes (RSum(e.li) \oplus extra))
  \oplus RSum([k \in 1..Len(e.mi) |-> RAbs(SkierForce(e.mi[k]))])

\* interfaces: bnd[j] = <<z at the right end of j, z at the left end of j+1>>
JoinCl(M, phi, e, D, F) ==
  LET n == Len(e.bnd)
      fn(j) == Normal(SkierForce(e.mi[j]), phi)
      ft(j) == Tangential(SkierForce(e.mi[j]), phi)
      a(j) == e.bnd[j][1]
      b(j) == e.bnd[j][2]
  IN KAll("join.u", n, LAMBDA j : RNear(a(j)[1], b(j)[1], T6 \otimes D)) \o
     KAll("join.w", n, LAMBDA j : RNear(a(j)[3], b(j)[3], T6 \otimes D)) \o
     KAll("join.psi", n, LAMBDA j : RNear(a(j)[5], b(j)[5], T6 \otimes (D \oslash M.h))) \o
     KAll("join.N", n, LAMBDA j :
        RNear(NForce(M, a(j)) \ominus NForce(M, b(j)), ft(j), T6 \otimes F)) \o
     KAll("join.M", n, LAMBDA j :
        RNear(MMoment(M, a(j)) \ominus MMoment(M, b(j)), RNeg(ft(j) \otimes M.h \otimes Half),
              T6 \otimes F \otimes M.h)) \o
     KAll("join.V", n, LAMBDA j :
        RNear(VForce(M, a(j)) \ominus VForce(M, b(j)), fn(j), T6 \otimes F))

\* outer ends; side = 1 (left) or 2 (right)
TcOf(m, M) == (m.ctx.tc.cf \otimes m.weak[3]) \ominus ((M.qn \oplus M.pn) \oslash M.kn)
EndCl(m, M, ctx, phi, e, D, F, side) ==
  LET z == e.ends[side]
      bed == IF side = 1 THEN e.ki[1] ELSE e.ki[Len(e.ki)]
      kind == EndKind(m.sys, ctx.stage, bed)
      sgn == IF side = 1 THEN R("-1") ELSE One
      nm == IF side = 1 THEN "left end: " ELSE "right end: "
      f6 == T6 \otimes F
      fm == T6 \otimes F \otimes M.h
      tcv == TcOf(m, M)
      free == K(nm \o "no axial force", RNear(NForce(M, z), Zero, f6)) \o
              K(nm \o "no moment", RNear(MMoment(M, z), Zero, fm)) \o
              K(nm \o "no shear force", RNear(VForce(M, z), Zero, f6))
      wedge == K(nm \o "wedge axial force", Near(NForce(M, z), WedgeN(m.slab, phi), T6, f6)) \o
               K(nm \o "wedge moment", Near(MMoment(M, z), WedgeM(m.slab, phi), T6, fm)) \o
               K(nm \o "wedge shear force", Near(VForce(M, z), WedgeV(m.slab, phi), T6, f6))
      inf == K(nm \o "uniform u", Near(z[1], UniformU(M), T6, T6 \otimes D)) \o
             K(nm \o "uniform w", Near(z[3], UniformW(M), T6, T6 \otimes D)) \o
             K(nm \o "uniform psi", Near(z[5], UniformPsi(M), T6, T6 \otimes (D \oslash M.h)))
      contact == K(nm \o "contact: no axial force", RNear(NForce(M, z), Zero, f6)) \o
                 K(nm \o "contact: no moment", RNear(MMoment(M, z), Zero, fm)) \o
                 K(nm \o "contact: collapse height", Near(z[3], tcv, T6, T6 \otimes D))
      nq == (M.qt \oplus M.pt) \otimes (ctx.geo.a \ominus ctx.tdl)
      krpsi == e.kr \otimes z[5]
      spring == K(nm \o "spring: load of the rested part",
                    Near(NForce(M, z), sgn \otimes nq, T6, f6)) \o
                K(nm \o "spring: moment",
                    RNear(MMoment(M, z), RNeg(sgn \otimes krpsi),
                          (T5 \otimes Mag(MMoment(M, z), krpsi)) \oplus fm)) \o
                K(nm \o "spring: collapse height", Near(z[3], tcv, T6, T6 \otimes D))
  IN IF kind \in {"contact", "spring"}
       THEN IF ~In({"C17", "C01", "C02", "C18"}) THEN <<>>
            ELSE IF kind = "contact" THEN contact ELSE spring
     ELSE IF ~In({"C08", "C01", "C02", "C17", "C18"}) THEN <<>>
     ELSE CASE kind = "free" -> free [] kind = "wedge" -> wedge [] kind = "infinite" -> inf

SolveCl(e) ==
  LET m == mods'[e.i] IN
  IF ~m.upd \/ m.ctx = None \/ ~In({"C01", "C02", "C04", "C06", "C07", "C08", "C17", "C18"})
  THEN <<>>
  ELSE
  LET MB == MechOf(m, e.phi)
      MU == Unsupported(MB)
      D == DispScale(MB.h, AllZ(e))
      F == ForceScale(MB, e, IF m.ctx.stage = "C" THEN m.ctx.geo.a ELSE Zero)
  IN K("finite", RIsFinite(D)) \o
     (IF In({"C06", "C01", "C02", "C04", "C18"}) THEN OdeCl(MB, MU, e.samp, D) ELSE <<>>) \o
     (IF In({"C07", "C01", "C02", "C04", "C18"}) THEN JoinCl(MB, e.phi, e, D, F) ELSE <<>>) \o
     EndCl(m, MB, m.ctx, e.phi, e, D, F, 1) \o
     EndCl(m, MB, m.ctx, e.phi, e, D, F, 2)

\* scalar and list evaluation; derivative routines (bedded)
EvalCl(e) ==
  LET m == mods'[e.i]
      M == MechOf(m, e.phi)
      n == Len(e.Z)
      d1 == TLCEval([k \in 1..n |-> ZPrime(M, e.Z[k])])
      d2 == TLCEval([k \in 1..n |-> ZSecond(M, e.Z[k])])
      \* size of the terms of K z + q: the scale of rounding errors
      M0 == Unloaded(M)
      KK == TLCEval([j \in 1..6 |-> RVAbs(ZPrime(M0, [c \in 1..6 |-> IF c = j THEN One ELSE Zero]))])
      qq == TLCEval(RVAbs(ZPrime(M, [c \in 1..6 |-> Zero])))
      grow(v) == [c \in 1..6 |-> RDot([j \in 1..6 |-> KK[j][c]], v)]
      m1 == TLCEval([k \in 1..n |-> RVAdd(grow(RVAbs(e.Z[k])), qq)])
      m2 == TLCEval([k \in 1..n |-> grow(m1[k])])
      close(u, v, mg) == \A c \in 1..6 : RNear(u[c], v[c], T9 \otimes mg[c])
      pick(v, a, b) == [v EXCEPT ![2] = a, ![6] = b]
  IN KAll("scalar and list agree", Len(e.pairs), LAMBDA k :
        NearV(e.pairs[k][1], e.pairs[k][2], T10, T12 \otimes RMaxAbs(e.pairs[k][2]))) \o
     KAll("dz_dx", n, LAMBDA k : close(e.d1[k], d1[k], m1[k])) \o
     KAll("dz_dxdx", n, LAMBDA k : close(e.d2[k], d2[k], m2[k])) \o
     KAll("second derivatives of u0, psi", n, LAMBDA k :
        close(pick(e.d1[k], e.dd[k][1], e.dd[k][2]), d1[k], m1[k])) \o
     KAll("third derivatives of u0, psi", n, LAMBDA k :
        close(pick(e.d2[k], e.dd[k][3], e.dd[k][4]), d2[k], m2[k]))

\* ----------------------------------------------------- clauses: loads (C04)
LoadCl(e) ==
  LET m == mods'[e.i]
      q == Weight(m.slab)
      eq(u, v, f) == NearV(u, v, T10, T12 \otimes RAbs(f))
  IN K("weight load", eq(e.weight, <<Normal(q, e.phi), Tangential(q, e.phi)>>, q)) \o
     K("surface load", eq(e.surface, <<Normal(m.p, e.phi), Tangential(m.p, e.phi)>>, m.p)) \o
     K("skier load", Len(e.skier[1]) = Len(e.m) /\ \A k \in 1..Len(e.m) :
          LET f == SkierForce(e.m[k]) IN
          eq(<<e.skier[1][k], e.skier[2][k]>>, <<Normal(f, e.phi), Tangential(f, e.phi)>>, f)) \o
     (IF e.total = <<>> THEN <<>> ELSE
      K("total load", eq(e.total, <<Normal(q \oplus m.p, e.phi), Tangential(q \oplus m.p, e.phi)>>,
                    RAbs(q) \oplus RAbs(m.p))))

\* -------------------------------------------------- clauses: segments (C05)
SegCl(e) ==
  LET m == mods'[e.i]
      x == SegmentsOf(m.sys, e.geo.L, e.geo.a, e.m, e.tdl, e.ex)
      tl == T9 \otimes (RSum(x.li) \oplus One)
      shape(s) == Len(s.li) = Len(x.li) /\ Len(s.ki) = Len(x.ki) /\ Len(s.mi) = Len(x.mi)
      total == IF m.sys = "skiers" THEN TotalLength(x.li) ELSE
               IF m.sys \in SlopeNormalSawTests
               THEN e.geo.L \ominus (e.geo.a \ominus e.tdl) ELSE e.geo.L
      crack == IF m.sys = "skiers" THEN CrackLength(x.li, x.ki) ELSE
               IF m.sys \in SlopeNormalSawTests THEN e.tdl ELSE e.geo.a
  IN IF ~In({"C05", "C01", "C18"}) THEN <<>> ELSE
     K("number of segments", shape(e.crack) /\ shape(e.nocrack) /\ shape(e.both)
                             /\ Len(e.both.k0) = Len(x.k0)) \o
     K("lengths", NearV(e.crack.li, x.li, T9, tl)) \o
     K("lengths non-negative", \A k \in 1..Len(e.crack.li) : RLe(RNeg(tl), e.crack.li[k])) \o
     K("total length", RNear(RSum(e.crack.li), total, tl)) \o
     K("crack length", Len(e.crack.li) = Len(e.crack.ki) =>
          RNear(CrackLength(e.crack.li, e.crack.ki), crack, tl)) \o
     K("skier weights", SameV(e.crack.mi, x.mi)) \o
     K("bedding cracked", e.crack.ki = x.ki) \o
     K("bedding uncracked", e.nocrack.ki = x.k0) \o
     K("bedding combined", e.both.ki = x.ki /\ e.both.k0 = x.k0) \o
     K("shared lengths", e.nocrack.li = e.crack.li /\ e.both.li = e.crack.li) \o
     K("shared weights", e.nocrack.mi = e.crack.mi /\ e.both.mi = e.crack.mi)

\* ------------------------------------------------ clauses: touchdown (C16)
TermsOk(t) == RNear(RSum(t), Zero, T6 \otimes RMaxAbs(t))
ContextCl(e) ==                 \* after calc_segments
  LET m == mods'[e.i]
      M == MechOf(m, e.geo.phi)
  IN IF ~In({"C16", "C01", "C02", "C18", "C17"}) \/ ~m.upd THEN <<>> ELSE
     K("collapse height", Near(e.tc, TcOf(m, M), T9, T10 \otimes m.weak[3])) \o
     K("crack length kept", Same(e.a, e.geo.a)) \o
     K("stage", e.mode \in Stages) \o
     (IF ~m.td THEN K("stage A without touchdown", e.mode = "A") ELSE <<>>) \o
     (IF e.mode \in {"A", "B"} THEN K("touchdown length is crack length", Same(e.tdl, e.geo.a))
      ELSE K("touchdown length below crack length",
             RLt(e.tdl, e.geo.a) /\ RLt(Zero, e.tdl)))
TransCl(e) ==                   \* transition lengths, touchdown length in C
  LET m == mods'[e.i]
      M == MechOf(m, m.ctx.geo.phi)
      bs == BendS(M)
      tc == TcOf(m, M)
      qn == M.qn \oplus M.pn
      a == m.ctx.geo.a
      mode == m.ctx.stage
  IN K("ordered", RLt(Zero, e.a1) /\ RLt(e.a1, e.a2) /\ RLt(e.a2, m.ctx.geo.L)) \o
     K("first contact", TermsOk(FirstContactTerms(bs, M.S, e.k1[1], e.k1[2], tc, qn, e.a1))) \o
     K("full contact", TermsOk(FullContactTerms(bs, M.S, e.k2[1], e.k2[2], tc, qn, e.a2))) \o
     K("stage follows lengths",
          mode = IF RLe(a, e.a1) THEN "A" ELSE IF RLe(a, e.a2) THEN "B" ELSE "C") \o
     (IF mode # "C" THEN <<>> ELSE
      K("steady contact", TermsOk(SteadyContactTerms(bs, M.S, e.k3[1], e.k3[2], e.k3[3],
                                                     tc, qn, m.ctx.tdl))))
\* substitute springs against certified reference beams (C17)
SubstCl(e) ==
  LET m == mods'[e.i]
      r == IF e.rested THEN m.ctx.geo.ratio ELSE One
      M0 == Unloaded(MechOf(m, Zero))
      M == [M0 EXCEPT !.kn = r \otimes M0.kn, !.kt = r \otimes M0.kt]
      D == DispScale(M.h, <<e.zl, e.zr>>)
      n == Len(e.cert)
      T == TLCEval([k \in 1..n |-> IntervalTerms(M, e.cert[k])])
      \* the certificate is a free beam under a unit moment or a unit force
      one == IF e.dof = "rot" THEN <<Zero, One, Zero>> ELSE <<Zero, Zero, One>>
      fl == IF e.dof = "rot" THEN T6 \oslash M.h ELSE T6
      loads(z, v) == /\ RNear(NForce(M, z), v[1], fl) /\ RNear(VForce(M, z), v[3], fl)
                     /\ RNear(MMoment(M, z), v[2], fl \otimes M.h)
      cert == /\ \A k \in 1..n : \A c \in 1..6 : IntervalOk(M, e.cert[k], D, c, T[k])
              /\ \A k \in 1..(n - 1) : e.cert[k].zb = e.cert[k + 1].za
              /\ e.cert[1].za = e.zl /\ e.cert[n].zb = e.zr
              /\ RNear(RSum([k \in 1..n |-> e.cert[k].len]), e.L, T9 \otimes e.L)
              /\ loads(e.zl, one) /\ loads(e.zr, <<Zero, Zero, Zero>>)
      ref == RAbs(One \oslash (IF e.dof = "rot" THEN e.zl[5] ELSE e.zl[3]))
  IN K("MACHINERY certificate", cert) \o
     K("substitute stiffness " \o e.dof \o (IF e.rested THEN " rested" ELSE " supported"),
       Near(e.k, ref, T5, Zero)) \o
     K("substitute stiffness positive", RLt(Zero, e.k))

\* -------------------------------------------------- clauses: raster (C10)
RasterCl(e) ==
  LET c == TLCEval(RasterCounts(e.li, e.num))
      n == CumI(c, Len(c))
      tot == TotalLength(e.li)
      m == Len(e.xq)
      tx == T10 \otimes tot
      ids == TLCEval(NonEmpty(e.li))
      h == Thick(mods'[e.i].slab)
      D == DispScale(h, e.zq)
      sv == ScaleVec(h, D)
      okz(k) == \E r \in 1..Len(e.cand[k]) : \A q \in 1..6 :
                   Near(e.zq[k][q], e.cand[k][r][q], T9, T9 \otimes sv[q])
  IN K("starts at zero", m > 0 /\ REq(e.xq[1], Zero)) \o
     K("ends at total length", m > 0 /\ RNear(e.xq[m], tot, tx)) \o
     KAll("never decreases", m - 1, LAMBDA k : RLe(e.xq[k], e.xq[k + 1])) \o
     K("same number of columns", Len(e.zq) = m /\ Len(e.xb) = m) \o
     K("number of points", m = n) \o
     KAll("boundaries included", Len(ids) - 1, LAMBDA i :
        LET b == RSum([r \in 1..i |-> e.li[ids[r]]]) IN
        \E k \in 1..m : RNear(e.xq[k], b, tx)) \o
     (IF m # n \/ Len(e.zq) # m \/ Len(e.xb) # m THEN <<>> ELSE
      KAll("coordinates", m, LAMBDA k : RNear(e.xq[k], RasterX(e.li, c, k), tx)) \o
      KAll("solution of the owning segment", m, okz) \o
      KAll("weak-layer coordinates", m, LAMBDA k :
         IF RasterBedded(e.li, e.ki, c, k) THEN REq(e.xb[k], e.xq[k]) ELSE RIsNaN(e.xb[k])))

\* -------------------------------- clauses: energy release rates (C12, C13)
GdifCl(e) ==
  LET M == MechOf(mods'[e.i], e.phi)
      tips == SetToSortSeq(Tips(e.ki), LAMBDA a, b : a < b)
      un == EnergyUnit(e.unit)
      sum(G(_, _)) == un \otimes RSum([r \in 1..Len(tips) |->
           TipWeight(e.ki, tips[r]) \otimes G(M, e.tipz[tips[r]][1])])
      g1 == sum(GI)
      g2 == sum(GII)
      \* a point load at a tip shears the slab discontinuously there: the rate
      \* is not defined better than between the states on either side
      side(Pick(_, _)) == un \otimes RSum([r \in 1..Len(tips) |->
           TipWeight(e.ki, tips[r]) \otimes Pick(GII(M, e.tipz[tips[r]][1]), GII(M, e.tipz[tips[r]][2]))])
      fl == T9 \otimes Mag(g1, g2)
  IN K("mode I at crack tips", Near(e.G[2], g1, T6, fl)) \o
     K("mode II at crack tips", RLe(side(LAMBDA a, b : RMin(a, b)), e.G[3] \oplus (T6 \otimes g2) \oplus fl)
                               /\ RLe(e.G[3], side(LAMBDA a, b : RMax(a, b)) \oplus (T6 \otimes g2) \oplus fl)) \o
     K("total is sum of modes", Near(e.G[1], e.G[2] \oplus e.G[3], T10, Zero)) \o
     K("modes non-negative", RLe(Zero, e.G[1]) /\ RLe(Zero, e.G[2]) /\ RLe(Zero, e.G[3])) \o
     (IF Len(tips) = 0 THEN K("uncracked gives zero", \A k \in 1..3 : REq(e.G[k], Zero)) ELSE <<>>)

Work1(M, a, b) == Sig(M, a) \otimes RNeg(b[3])
Work2(M, a, b) == Tau(M, a) \otimes ShearDisp(M, b)
GincCl(e) ==
  LET M == MechOf(mods'[e.i], e.phi)
      new == NewCrack(e.k0, e.ki)
      da == RSum([k \in 1..Len(e.li) |-> IF k \in new THEN e.li[k] ELSE Zero])
      n == Len(e.samp)
      v1 == TLCEval([k \in 1..n |-> TLCEval([j \in 1..10 |-> Work1(M, e.samp[k].z0[j], e.samp[k].z1[j])])])
      v2 == TLCEval([k \in 1..n |-> TLCEval([j \in 1..10 |-> Work2(M, e.samp[k].z0[j], e.samp[k].z1[j])])])
      tot(v) == RSum([k \in 1..n |-> GaussSum(e.samp[k].len, v[k])]) \oslash (Two \otimes da)
      mag(v) == RSum([k \in 1..n |-> GaussSum(e.samp[k].len, RVAbs(v[k]))]) \oslash (Two \otimes da)
      \* quadrature tolerance of the implementation (documented as tol)
      tl(v) == (R("2e-3") \otimes mag(v)) \oplus (R("1e-3") \oslash (Two \otimes da))
      mean(c) == RDot([k \in 1..Len(e.mean) |-> e.mean[k][1]], [k \in 1..Len(e.mean) |-> e.mean[k][c]])
      \* the shear deformation of the weak layer contains the rotation of its
      \* upper face, the shear force of the slab does not: the rates agree up to
      \* that coupling (kt t^2/4 against the shear stiffness of the slab)
      coup == RSqrt((M.kt \otimes Sq(M.t)) \oslash (R("4") \otimes M.S))
      tm == ((R("5e-3") \oplus (R("0.7") \otimes coup)) \otimes (mean(2) \oplus mean(3))) \oplus (R("1e-3") \oslash (Two \otimes da))
  IN IF new = {} \/ RLe(da, Zero)
     THEN K("no new crack, no energy", \A k \in 1..3 : RIsNaN(e.G[k]) \/ REq(e.G[k], Zero))
     ELSE
     K("MACHINERY covers crack", RNear(RSum([k \in 1..n |-> e.samp[k].len]), da, T9 \otimes da)) \o
     K("mode I work", RNear(e.G[2], tot(v1), tl(v1))) \o
     K("mode II work", RNear(e.G[3], tot(v2), tl(v2))) \o
     K("total is sum of modes", Near(e.G[1], e.G[2] \oplus e.G[3], T10, Zero)) \o
     (IF e.loaded THEN
        K("loaded crack releases energy", RLe(RNeg(tl(v1) \oplus tl(v2)), e.G[1])) ELSE <<>>) \o
     (IF Len(e.mean) = 0 THEN <<>> ELSE
        K("total is mean differential rate", RNear(e.G[1], mean(2) \oplus mean(3), tm)))

\* ------------------------------------- clauses: field quantities (C11)
FieldOf(M, q, z0, unit, z) ==
  CASE q = "w"       -> LengthUnit(unit) \otimes z[3]
    [] q = "dw_dx"   -> z[4]
    [] q = "psi"     -> AngleUnit(unit) \otimes z[5]
    [] q = "dpsi_dx" -> z[6]
    [] q = "u"       -> LengthUnit(unit) \otimes UAt(z, z0)
    [] q = "du_dx"   -> DuAt(z, z0)
    [] q = "N"       -> NForce(M, z)
    [] q = "M"       -> MMoment(M, z)
    [] q = "V"       -> VForce(M, z)
    [] q = "sig"     -> StressUnit(unit) \otimes Sig(M, z)
    [] q = "tau"     -> StressUnit(unit) \otimes Tau(M, z)
    [] q = "eps"     -> Eps(M, z)
    [] q = "gamma"   -> Gamma(M, z)
    [] q = "Gi"      -> EnergyUnit(unit) \otimes GI(M, z)
    [] q = "Gii"     -> EnergyUnit(unit) \otimes GII(M, z)
\* all terms taken positive: the size of rounding errors
FieldMag(M, q, z0, unit, z) ==
  LET MA == [M EXCEPT !.B = RAbs(M.B)]
      za == [k \in 1..6 |-> IF k = 4 /\ q # "V" /\ q # "dw_dx" THEN RNeg(RAbs(z[k])) ELSE RAbs(z[k])]
  IN RAbs(FieldOf(MA, q, RAbs(z0), unit, za))
FieldCl(e) ==
  LET M == MechOf(mods'[e.i], Zero)
  IN Flat([r \in 1..Len(e.q) |->
       LET s == e.q[r] IN
       KAll("field " \o s.name, Len(e.Z), LAMBDA k :
          Len(s.v) = Len(e.Z) /\
          RNear(s.v[k], FieldOf(M, s.name, s.z0, s.unit, e.Z[k]),
                T10 \otimes FieldMag(M, s.name, s.z0, s.unit, e.Z[k])))])
\* strain and stress of the weak layer have the same sign, ratio kn t and kt t
SignCl(e) ==
  LET M == MechOf(mods'[e.i], Zero)
      idx(nm) == {r \in 1..Len(e.q) : e.q[r].name = nm /\ e.q[r].unit \in {"", "MPa"}}
      v(nm) == e.q[CHOOSE r \in idx(nm) : TRUE].v
  IN IF \A nm \in {"sig", "eps", "tau", "gamma"} : idx(nm) # {} THEN
     KAll("stress is stiffness times strain", Len(e.Z), LAMBDA k :
        /\ Near(v("sig")[k], M.kn \otimes M.t \otimes v("eps")[k], T9, Zero)
        /\ Near(v("tau")[k], M.kt \otimes M.t \otimes v("gamma")[k], T9,
                T9 \otimes FieldMag(M, "tau", Zero, "MPa", e.Z[k])))
     ELSE <<>>
GetterCl(e) ==
  LET M == MechOf(mods'[e.i], Zero)
      hh == M.h \otimes Half
      z0 == CASE e.loc = "top" -> RNeg(hh) [] e.loc = "bot" -> hh [] OTHER -> Zero
      weak == e.name \in {"sig", "tau"}
      keep == SelectSeq([k \in 1..Len(e.x) |-> k], LAMBDA k : ~e.drop \/ ~RIsNaN(e.x[k]))
      n == Len(keep)
      nm == "getter " \o e.name
  IN K(nm \o ": length", Len(e.xo) = n /\ Len(e.v) = n) \o
     (IF Len(e.xo) # n \/ Len(e.v) # n THEN <<>> ELSE
      KAll(nm \o ": position", n, LAMBDA k :
        IF RIsNaN(e.x[keep[k]]) THEN RIsNaN(e.xo[k])
        ELSE Near(e.xo[k], R("0.1") \otimes e.x[keep[k]], T10, Zero)) \o
      KAll(nm \o ": value", n, LAMBDA k :
        LET z == e.Z[keep[k]] IN
        IF weak /\ RIsNaN(e.x[keep[k]]) THEN RIsNaN(e.v[k])
        ELSE RNear(e.v[k], FieldOf(M, e.name, z0, e.unit, z),
                   T10 \otimes FieldMag(M, e.name, z0, e.unit, z))))

\* ------------------------------------------- clauses: slab stresses (C14)
\* block[k]: layer of mesh point k, as delimited by the repeated interfaces
BlockOk(e, sl) == Len(e.block) > 0 /\ e.block[Len(e.block)] = Len(sl)
MeshCl(e) ==
  LET sl == mods'[e.i].slab
      pz == PlyZ(sl)
      n == Len(e.mesh)
      tl == T9 \otimes Thick(sl)
  IN K("mesh has one block per layer", BlockOk(e, sl)) \o
     (IF ~BlockOk(e, sl) THEN <<>> ELSE
      KAll("mesh points", n, LAMBDA k :
        LET b == e.block[k]
            first == IF k = 1 THEN TRUE ELSE e.block[k - 1] # b
            last == IF k = n THEN TRUE ELSE e.block[k + 1] # b
        IN /\ first => RNear(e.mesh[k][1], pz[b], tl) /\ ~last
           /\ last => RNear(e.mesh[k][1], pz[b + 1], tl)
           /\ ~last => /\ RLe(e.mesh[k][1], e.mesh[k + 1][1])
                       /\ RLe(e.mesh[k + 1][1] \ominus e.mesh[k][1], e.dz \oplus tl)
           /\ SameV(<<e.mesh[k][2], e.mesh[k][3], e.mesh[k][4]>>,
                    <<sl[b][3], sl[b][5], sl[b][1]>>)))
StressCl(e) ==
  LET m == mods'[e.i]
      sl == m.slab
      M == MechOf(m, e.phi)
      un == StressUnit(e.unit)
      n == Len(e.mesh)
      nx == Len(e.Z)
      sn == RSin(RRad(e.phi))
      cs == RCos(RRad(e.phi))
      blk == e.block
      Z1 == TLCEval([x \in 1..nx |-> ZPrime(M, e.Z[x])])
      Z2 == TLCEval([x \in 1..nx |-> ZSecond(M, e.Z[x])])
      W == TLCEval([k \in 1..n |-> WeightAbove(sl, blk[k], e.mesh[k][1])])
      Ep == TLCEval([i \in 1..Len(sl) |-> PlaneStrain(sl[i][3], sl[i][5])])
      Emax == RMaxAbs(Ep)
      tol(rel, a) == un \otimes rel \otimes a
      \* axial stress
      okx(k, x) ==
        LET z == e.Z[x]
            mg == Ep[blk[k]] \otimes (RAbs(z[2]) \oplus RAbs(e.mesh[k][1] \otimes z[6]))
            wt == Grav \otimes DensityUnit \otimes sl[blk[k]][1] \otimes RAbs(sn) \otimes e.dz
        IN RNear(e.sxx[k][x], un \otimes Ep[blk[k]] \otimes DuAt(z, e.mesh[k][1]),
                 un \otimes ((T9 \otimes mg) \oplus (R("1.000001") \otimes wt)))
      \* shear stress
      txs(k, x) == (M.pt \oplus StressIntegral(sl, blk[k], e.mesh[k][1], Z1[x][2], Z1[x][6]))
                     \ominus (sn \otimes W[k])
      mgt == TLCEval([x \in 1..nx |-> (Emax \otimes M.h \otimes
                (RAbs(Z1[x][2]) \oplus (M.h \otimes RAbs(Z1[x][6])))) \oplus RAbs(M.pt) \oplus W[n]])
      okt(k, x) == RNear(e.txz[k][x], un \otimes txs(k, x), tol(T9, mgt[x]))
      \* transverse normal stress: the trapezoidal rule integrates the
      \* quadratic inner integral with error dz^2/12 E' psi''' per unit depth
      sz(k, x) == (RNeg(M.pn) \oplus StressIntegral2(sl, blk[k], e.mesh[k][1], Z2[x][2], Z2[x][6]))
                    \ominus (cs \otimes W[k])
      mgs == TLCEval([x \in 1..nx |-> (Emax \otimes M.h \otimes M.h \otimes
                (RAbs(Z2[x][2]) \oplus (M.h \otimes RAbs(Z2[x][6])))) \oplus RAbs(M.pn) \oplus W[n]])
      trap == TLCEval([x \in 1..nx |->
                (Sq(e.dz) \otimes Emax \otimes M.h \otimes RAbs(Z2[x][6])) \oslash R("6")])
      okz(k, x) == RNear(e.szz[k][x], un \otimes sz(k, x),
                         tol(T9, mgs[x]) \oplus (un \otimes trap[x]))
      all(F(_, _)) == \A k \in 1..n : \A x \in 1..nx : F(k, x)
      bl == TLCEval([x \in 1..nx |-> RNear(e.txz[n][x], un \otimes Tau(M, e.Z[x]), tol(T6, mgt[x]))])
      zer == TLCEval([x \in 1..nx |-> RNear(e.txz[n][x], Zero, tol(T6, mgt[x]))])
  IN IF ~BlockOk(e, sl) THEN <<>> ELSE
     K("axial stress", all(okx)) \o
     (IF e.bedded THEN
        K("shear stress", all(okt)) \o
        K("shear traction at the top", \A x \in 1..nx :
            RNear(e.txz[1][x], un \otimes M.pt, tol(T9, mgt[x]))) \o
        K("weak-layer shear stress at the bottom", \A x \in 1..nx : bl[x]) \o
        K("transverse normal stress", all(okz)) \o
        K("normal traction at the top", \A x \in 1..nx :
            RNear(e.szz[1][x], RNeg(un \otimes M.pn), tol(T9, mgs[x])))
      ELSE
        \* unsupported part: traction-free bottom.  The as-if-bedded value is
        \* told apart from any other value (see known-findings.json).
        K("free bottom: no shear stress", \A x \in 1..nx : zer[x]) \o
        K("free bottom: zero or as if bedded", \A x \in 1..nx : zer[x] \/ bl[x]))

\* ------------------------------------------------ clauses: potentials (C21)
\* The code averages over the rasterized points.
PotentialCl(e) ==
  LET m == mods'[e.i]
      M == MechOf(m, e.phi)
      n == Len(e.samp)
      T1 == R("3e-3")
      \* extrapolated from two rasters
      lim(c) == (Two \otimes e.pot[2][c]) \ominus e.pot[1][c]
      pi == lim(1)
      pe == lim(2)
      E == TLCEval([r \in 1..n |-> GaussSum(e.samp[r].len, TLCEval([k \in 1..10 |->
              SlabEnergy(M, e.samp[r].g[k]) \oplus
              (IF e.samp[r].bed THEN WeakEnergy(M, e.samp[r].g[k]) ELSE Zero)]))])
      W == TLCEval([r \in 1..n |-> LET w == TLCEval([k \in 1..10 |-> LoadWork(M, e.samp[r].g[k])])
              IN TLCEval([c \in 1..3 |-> GaussSum(e.samp[r].len, TLCEval([k \in 1..10 |-> w[k][c]]))])])
      work(c) == RSum([r \in 1..n |-> W[r][c]])
      mag == RSum([r \in 1..n |-> RSum(RVAbs(W[r]))])
      left == m.sys = "-pst"
      z == IF left THEN e.ends[1] ELSE e.ends[2]
      \* spring of the part lying on the ground: half the moment times rotation
      spring == (IF left THEN Half ELSE RNeg(Half)) \otimes MMoment(M, z) \otimes z[5]
      rest == e.L \ominus RSum(e.li)
      wr == [c \in 1..3 |-> rest \otimes LoadWork(M, z)[c]]
      \* the weak layer is sheared by the slope of the deflection, but pulls at
      \* the lever of the rotation: work of its stress on the difference
      def == RSum(TLCEval([r \in 1..n |-> IF ~e.samp[r].bed THEN Zero ELSE
              GaussSum(e.samp[r].len, TLCEval([k \in 1..10 |-> LeverWork(M, e.samp[r].g[k])]))]))
      int == RSum(E) \oplus spring
      ext == RNeg(RSum(<<work(1), work(2), work(3)>>) \oplus RSum(wr))
      mg == mag \oplus RSum(RVAbs(wr))
  IN K("internal potential", RNear(pi, int, T1 \otimes RSum(E))) \o
     K("external potential", RNear(pe, ext, T1 \otimes mg)) \o
     KAll("total potential", 2, LAMBDA c : LET p == e.pot[c] IN
       RNear(p[3], p[1] \oplus p[2], T9 \otimes Mag(p[1], p[2]))) \o
     K("stored energy is positive", RLt(Zero, pi)) \o
     (IF m.ctx.stage # "A" THEN <<>> ELSE
      K("stored energy is half the work of the loads",
        RNear(pi, RNeg((Half \otimes pe) \oplus def), R("3e-3") \otimes (RAbs(pi) \oplus mg))) \o
      K("energy balance of the solution",
        RNear(int, RNeg((Half \otimes ext) \oplus def), T6 \otimes (RAbs(int) \oplus mg))))

\* --------------------------------------- clauses: principal stresses (C15)
PrincipalCl(e) ==
  LET sgn == IF e.val = "max" THEN One ELSE R("-1")
      n == Len(e.ps)
      eig(a, b, t) == ((a \oplus b) \otimes Half) \oplus
                      (sgn \otimes Half \otimes RSqrt(Sq(a \ominus b) \oplus (Four \otimes Sq(t))))
      mg(a, b, t) == RAbs(a) \oplus RAbs(b) \oplus RAbs(t)
      M == MechOf(mods'[e.i], Zero)
      strength(k) == (IF e.unit = "MPa" THEN Milli ELSE One) \otimes Sigrist(e.rho[k])
      s == TLCEval([k \in 1..Len(e.Z) |-> StressUnit(e.unit) \otimes Sig(M, e.Z[k])])
      t == TLCEval([k \in 1..Len(e.Z) |-> StressUnit(e.unit) \otimes Tau(M, e.Z[k])])
      wden == IF e.norm THEN e.sc ELSE One
      sden(k) == IF e.norm THEN strength(k) ELSE One
  IN IF e.weak THEN
       KAll("weak layer " \o e.val, Len(e.Z), LAMBDA k : n = Len(e.Z) /\
            RNear(e.ps[k] \otimes wden, eig(s[k], Zero, t[k]),
                  T9 \otimes (mg(s[k], Zero, t[k]) \oplus FieldMag(M, "tau", Zero, e.unit, e.Z[k]))))
     ELSE KAll("slab " \o e.val \o (IF e.norm THEN " normalized" ELSE ""), n, LAMBDA k :
            \A x \in 1..Len(e.ps[k]) :
            RNear(e.ps[k][x] \otimes sden(k), eig(e.sxx[k][x], e.szz[k][x], e.txz[k][x]),
                  T9 \otimes mg(e.sxx[k][x], e.szz[k][x], e.txz[k][x])))
          \o (IF e.other = <<>> THEN <<>> ELSE
          KAll("sum of principal stresses is the trace", n, LAMBDA k : \A x \in 1..Len(e.ps[k]) :
             RNear(e.ps[k][x] \oplus e.other[k][x], e.sxx[k][x] \oplus e.szz[k][x],
                   T9 \otimes mg(e.sxx[k][x], e.szz[k][x], e.txz[k][x]))) \o
          KAll("maximum not below minimum", n, LAMBDA k : \A x \in 1..Len(e.ps[k]) :
             IF e.val = "max" THEN RLe(e.other[k][x], e.ps[k][x]) ELSE RLe(e.ps[k][x], e.other[k][x])))

\* -------------------------------------------------- clauses: relations (C09)
MirrorSys(s) == CASE s = "pst-" -> "-pst" [] s = "-pst" -> "pst-"
                  [] s = "vpst-" -> "-vpst" [] s = "-vpst" -> "vpst-" [] OTHER -> s
MirrorZ(z) == <<RNeg(z[1]), z[2], z[3], RNeg(z[4]), RNeg(z[5]), z[6]>>
CloseZ(h, D, a, b) == LET sv == ScaleVec(h, T6 \otimes D) IN \A c \in 1..6 : RNear(a[c], b[c], sv[c])
RelateCl(e) ==
  LET ma == mods'[e.i]
      mb == mods'[e.j]
      h == Thick(ma.slab)
      D == DispScale(h, [k \in 1..Len(e.pts) |-> e.pts[k][1]])
      a == e.a
      b == e.b
      sameModel == ma.slab = mb.slab /\ ma.weak = mb.weak /\ ma.p = mb.p
  IN CASE e.kind = "mirror" ->
       K("MACHINERY mirrored request",
          /\ sameModel /\ mb.sys = MirrorSys(ma.sys)
          /\ NearV(b.li, Rev(a.li), T6, T9) /\ b.ki = Rev(a.ki) /\ SameV(b.mi, Rev(a.mi))
          /\ REq(b.phi, RNeg(a.phi))) \o
       KAll("mirrored solution", Len(e.pts), LAMBDA k :
          CloseZ(h, D, MirrorZ(e.pts[k][1]), e.pts[k][2]))
    [] e.kind = "split" ->
       K("MACHINERY split request",
          /\ sameModel /\ RNear(TotalLength(a.li), TotalLength(b.li), T6)
          /\ RNear(CrackLength(a.li, a.ki), CrackLength(b.li, b.ki), T6)
          /\ RNear(RSum(a.mi), RSum(b.mi), T9) /\ REq(a.phi, b.phi) /\ ma.sys = mb.sys) \o
       KAll("solution independent of segmentation", Len(e.pts), LAMBDA k :
          CloseZ(h, D, e.pts[k][1], e.pts[k][2]))
LinearCl(e) ==     \* coefficients c, loads and solutions of several requests
  LET h == Thick(mods'[e.i].slab)
      n == Len(e.c)
      loads == Len(e.load[1])
      D == RSum([r \in 1..n |-> RAbs(e.c[r]) \otimes DispScale(h, e.zz[r])])
      zero6 == <<Zero, Zero, Zero, Zero, Zero, Zero>>
      comb(k) == [q \in 1..6 |-> RSum([r \in 1..n |-> e.c[r] \otimes e.zz[r][k][q]])]
  IN K("MACHINERY loads cancel",
        /\ RNear(RSum(e.c), Zero, T9)
        /\ \A q \in 1..loads : RNear(RSum([r \in 1..n |-> e.c[r] \otimes e.load[r][q]]), Zero,
              T9 \otimes (One \oplus RMaxAbs([r \in 1..n |-> e.load[r][q]])))) \o
     KAll("superposition", Len(e.zz[1]), LAMBDA k : CloseZ(h, D, comb(k), zero6))

\* ------------------------------------------------ clauses: rejections (C18)
RejectCl(e) ==
  IF e.want = "none" THEN <<>>          \* need not be rejected, must do no harm
  ELSE K("rejected: " \o e.call, IF e.want = "any" THEN e.exc # "" ELSE e.want \in ToSet(e.mro))

\* ----------------------------------------------------- clauses: tools (C19)
ToolCl(e) ==
  LET law(f(_)) == K(e.fn, Len(e.ret) = Len(e.rho) /\
                      \A k \in 1..Len(e.rho) : Near(e.ret[k], f(e.rho[k]), T10, Zero))
                   \o K(e.fn \o " increases with density",
                        Len(e.ret) = Len(e.rho) /\ \A j, k \in 1..Len(e.rho) :
                        RLt(e.rho[j], e.rho[k]) => RLt(e.ret[j], e.ret[k]))
  IN CASE e.fn = "bergfeld" -> law(LAMBDA r : Bergfeld(r, e.par[1], e.par[2], e.par[3]))
       [] e.fn = "gerling" -> law(LAMBDA r : Gerling(r, e.par[1], e.par[2]))
       [] e.fn = "scapozza" -> law(Scapozza)
       [] e.fn = "tensile" -> law(LAMBDA r : (IF e.unit = "MPa" THEN Milli ELSE One) \otimes Sigrist(r))
       [] e.fn = "profile" ->
            LET p == Profile(e.name) IN
            K("profile " \o e.name, Len(e.layers) = Len(p) /\ Len(e.E) = Len(p) /\
               \A k \in 1..Len(p) : SameV(<<e.layers[k][1], e.layers[k][2], e.E[k]>>, p[k]))
       [] e.fn = "cog" ->
            LET sl == [k \in 1..Len(e.layers) |-> <<e.layers[k][1], e.layers[k][2], Zero, Zero, Zero>>] IN
            K("centre of gravity", Near(e.ret[1], Thick(sl), T10, Zero) /\
               Near(e.ret[2], CogZ(sl), T10, T10 \otimes Thick(sl)))
       [] e.fn = "wedge" ->
            LET sl == [k \in 1..Len(e.layers) |-> <<e.layers[k][1], e.layers[k][2], Zero, Zero, Zero>>]
                W == Wedge(sl, e.phi)
            IN K("wedge mass", Near(e.ret[3], W.m, T9, Zero)) \o
               K("wedge centroid",
                 /\ RNear(e.ret[1] \otimes e.ret[3], W.mx, T9 \otimes Thick(sl) \otimes RAbs(W.m))
                 /\ RNear(e.ret[2] \otimes e.ret[3], W.mz, T9 \otimes Thick(sl) \otimes RAbs(W.m)))
       [] e.fn = "touchdown" ->
            LET sl == SlabOf(e.lay)
                w == <<e.Ewl, R("0.25"), e.t>>
                M == Mech(sl, e.t, KnOf(w), KtOf(w), Zero, e.phi)
                tc == (Half \otimes e.t) \ominus (M.qn \oslash M.kn)
                bs == BendS(M)
            IN K("first contact length", TermsOk(FirstContactTerms(bs, M.S, e.k1[1], e.k1[2], tc, M.qn, e.ret[1]))) \o
               K("full contact length", TermsOk(FullContactTerms(bs, M.S, e.k1[3], e.k1[4], tc, M.qn, e.ret[2]))) \o
               K("steady-state length", TermsOk(SteadyContactTerms(bs, M.S, e.k1[5], e.k1[6], e.k1[7], tc, M.qn, e.ret[3]))) \o
               K("lengths ordered", RLt(Zero, e.ret[1]) /\ RLt(e.ret[1], e.ret[2]) /\ RLt(Zero, e.ret[3]))

\* ----------------------------------------------------- clauses: plots (C20)
\* an announced curve: quantity, unit, sign, label (or given values)
CurveN(c, e) == IF c.q = "given" THEN Len(c.x) ELSE Len(e.x)
CurveX(c, e, k) == R("0.1") \otimes (IF c.q = "given" THEN c.x[k] ELSE e.x[k])
CurveVal(M, c, e, k) ==
  IF c.q = "given" THEN c.y[k] ELSE c.sign \otimes FieldOf(M, c.q, Zero, c.unit, e.Z[k])
CurveMag(M, c, e) ==
  IF c.q = "given" THEN MaxFinite(c.y)
  ELSE RMaxAbs([k \in 1..Len(e.Z) |-> FieldMag(M, c.q, Zero, c.unit, e.Z[k])])
Matches(M, c, e, ln) ==
  LET n == CurveN(c, e)
      fl == T9 \otimes CurveMag(M, c, e)
      eqn(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ Near(a, b, T10, fl)
  IN /\ Len(ln.x) = n /\ Len(ln.y) = n
     /\ \A k \in 1..n : eqn(ln.x[k], CurveX(c, e, k)) /\
          (RIsNaN(CurveX(c, e, k)) \/ eqn(ln.y[k], CurveVal(M, c, e, k)))
ProfileCl(e) ==
  LET sl == mods'[e.i].slab
      n == Len(sl)
      bot(k) == RSum([r \in 1..(n - k) |-> sl[n + 1 - r][2]])   \* height of lower face of layer k
      pts == UNION {{<<sl[k][1], bot(k)>>, <<sl[k][1], bot(k) \oplus sl[k][2]>>} : k \in 1..n}
      near(a, b) == RNear(a[1], b[1], Milli) /\ RNear(a[2], b[2], Milli)
      obs == {e.verts[r] : r \in 1..Len(e.verts)}
  IN K("profile: density of every layer", \A q \in pts : \E o \in obs : near(q, o)) \o
     K("profile: nothing else", \A o \in obs : \E q \in pts : near(q, o) \/ near(<<Zero, q[2]>>, o))
DeformedCl(M, e) ==
  LET nz == Len(e.zi)
      nx == Len(e.x)
      t == T9 \otimes R("100")
      UX == TLCEval([k \in 1..nz |-> TLCEval([x \in 1..nx |-> R("0.1") \otimes UAt(e.Z[x], e.zi[k])])])
      wx(x) == R("0.1") \otimes e.Z[x][3]
      X0(x) == R("0.1") \otimes (e.x[x] \ominus e.shift)
      X(k, x) == X0(x) \oplus (e.scale \otimes UX[k][x])
      Y(k, x) == (R("0.1") \otimes (e.zi[k] \oplus (M.h \otimes Half))) \oplus (e.scale \otimes wx(x))
      um == R("10000")
      F(k, x) == CASE e.field = "u" -> um \otimes UX[k][x]
                   [] e.field = "w" -> um \otimes wx(x)
                   [] OTHER -> e.slabfield[k][x]
      FF == TLCEval([k \in 1..nz |-> TLCEval([x \in 1..nx |-> F(k, x)])])
      ok == Len(e.C) = 2 /\ Len(e.C[1].X) = nz /\ Len(e.C[1].X[1]) = nx
            /\ Len(e.C[2].X) = 2 /\ Len(e.C[2].X[1]) = nx
      wk(x) == CASE e.field = "u" -> um \otimes UX[nz][x]
                 [] e.field = "w" -> um \otimes wx(x)
                 [] e.field = "Sxx" -> Zero
                 [] OTHER -> e.weakfield[x]
      bedded == SelectSeq([x \in 1..nx |-> x], LAMBDA x : ~RIsNaN(e.xb[x]))
      fs == RMaxAbs(Flat(FF))
      fm == fs \oplus RMaxAbs([r \in 1..Len(bedded) |-> wk(bedded[r])])
      fw == MaxFinite([x \in 1..nx |-> wk(x)])
      \* the colour scale: symmetric, the same for slab and weak layer, as far
      \* as the field reaches (up to rounding to one digit)
      top(r) == e.levels[r][Len(e.levels[r])]
      scaled(r) == /\ Len(e.levels[r]) > 1
                   /\ RNear(e.levels[r][1], RNeg(top(r)), T9 \otimes top(r))
                   /\ \A k \in 1..(Len(e.levels[r]) - 1) : RLt(e.levels[r][k], e.levels[r][k + 1])
                   /\ RLe(R("0.6") \otimes fs, top(r))
                   /\ (RLe(top(r), R("1.5") \otimes RMax(fs, fw))
                       \/ (RLe(RMax(fs, fw), T9) /\ RLe(top(r), One)))
      \* outlines of the undeformed and of the deformed slab
      rim == {q \in (1..nz) \X (1..nx) : q[1] \in {1, nz} \/ q[2] \in {1, nx}}
      at(q, c) == <<X0(q[2]) \oplus (c \otimes UX[q[1]][q[2]]),
                    (R("0.1") \otimes (e.zi[q[1]] \oplus (M.h \otimes Half))) \oplus (c \otimes wx(q[2]))>>
      same(a, b) == Near(a[1], b[1], T9, t) /\ Near(a[2], b[2], T9, t)
      pts(o) == [k \in 1..Len(o.x) |-> <<o.x[k], o.y[k]>>]
      rimmed(c) == LET W == TLCEval([q \in rim |-> at(q, c)])
                   IN \E r \in 1..Len(e.outl) : LET P == pts(e.outl[r]) IN
                        /\ Len(P) > 3
                        /\ \A k \in 1..Len(P) : \E q \in rim : same(P[k], W[q])
                        /\ \A q \in rim : \E k \in 1..Len(P) : same(P[k], W[q])
  IN K("deformed: slab and weak layer drawn", ok) \o
     (IF ~ok THEN <<>> ELSE
      KAll("deformed: mesh position", nz, LAMBDA k : \A x \in 1..nx :
         /\ Near(e.C[1].X[k][x], X(k, x), T9, t)
         /\ Near(e.C[1].Y[k][x], Y(k, x), T9, t)) \o
      KAll("deformed: field " \o e.field, nz, LAMBDA k : \A x \in 1..nx :
         Near(e.C[1].F[k][x], FF[k][x], T9, T9 \otimes fm)) \o
      KAll("deformed: weak-layer position", Len(bedded), LAMBDA r : LET x == bedded[r] IN
         /\ Near(e.C[2].X[1][x], X(nz, x), T9, t)
         /\ Near(e.C[2].Y[1][x], Y(nz, x), T9, t)
         /\ Near(e.C[2].X[2][x], X0(x), T9, t)) \o
      KAll("deformed: weak-layer field " \o e.field, Len(bedded), LAMBDA r : LET x == bedded[r] IN
         \A q \in 1..2 : Near(e.C[2].F[q][x], wk(x), T9, T9 \otimes fm)) \o
      KAll("deformed: weak layer reaches the ground", Len(bedded), LAMBDA r : LET x == bedded[r] IN
         /\ REq(e.C[2].Y[2][x], e.C[2].Y[2][bedded[1]])
         /\ RLe(e.C[2].Y[1][x], e.C[2].Y[2][x])) \o
      K("deformed: colour scale", Len(e.levels) = 2 /\ scaled(1) /\ scaled(2) /\ e.levels[1] = e.levels[2]) \o
      K("deformed: outline of the undeformed slab", rimmed(Zero)) \o
      K("deformed: outline of the deformed slab", rimmed(e.scale)))
\* cracks are shaded and skiers marked at their positions (cm)
FrameCl(e) ==
  LET pos(k) == R("0.1") \otimes RSum([r \in 1..k |-> e.li[r]])
      near(a, b) == Near(a, b, T10, T9)
      un == {k \in 1..Len(e.ki) : ~e.ki[k]}
      sk == {k \in 1..Len(e.mi) : RLt(Zero, e.mi[k])}
  IN K("unsupported parts are shaded",
       /\ \A k \in un : \E r \in 1..Len(e.spans) :
             near(e.spans[r][1], pos(k - 1)) /\ near(e.spans[r][2], pos(k))
       /\ \A r \in 1..Len(e.spans) : \E k \in un :
             near(e.spans[r][1], pos(k - 1)) /\ near(e.spans[r][2], pos(k))) \o
     K("skiers are marked",
       /\ \A k \in sk : \E r \in 1..Len(e.marks) : near(e.marks[r], pos(k))
       /\ \A r \in 1..Len(e.marks) : REq(e.marks[r], Zero) \/ \E k \in sk : near(e.marks[r], pos(k)))
PlotCl(e) ==
  LET M == IF e.i = 0 THEN None ELSE MechOf(mods'[e.i], e.phi)
      files == K("documented file written", e.new = <<e.file>> /\ e.png) \o
               K("figures closed", e.figs[1] = e.figs[2]) \o
               K("default settings restored", e.rc)
      curves == Flat([c \in 1..Len(e.want) |->
                   K("curve " \o e.kind \o " " \o e.want[c].name,
                      \E r \in 1..Len(e.lines) :
                         /\ Matches(M, e.want[c], e, e.lines[r])
                         /\ (e.want[c].label = "" \/ e.want[c].label \in ToSet(e.lines[r].labels)))])
                \o K("no other curves in " \o e.kind, \A r \in 1..Len(e.lines) :
                      \E c \in 1..Len(e.want) : Matches(M, e.want[c], e, e.lines[r]))
                \o (IF e.framed THEN FrameCl(e) ELSE <<>>)
  IN files \o K("labels of " \o e.kind, \A r \in 1..Len(e.texts) : e.texts[r][2]) \o
     (CASE e.kind = "profile" -> ProfileCl(e)
        [] e.kind = "deformed" -> DeformedCl(M, e)
        [] OTHER -> curves)
=============================================================================
