------------------------------- MODULE WeacMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the life cycle with small sets of parameters.  *)
(***************************************************************************)
EXTENDS Weac, TLC

CONSTANTS Slabs, Weaks, Loads, Phis, Cracks, MaxSols, SysSet

Geos == [L : {"L"}, a : Cracks, phi : Phis, cf : {"cf"}, ratio : {"r"}]

Init == /\ mods = [i \in Inst |-> Absent]
        /\ sols = <<>>
        /\ who = 0

Next == \E i \in Inst :
  \/ \E s \in SysSet, td \in BOOLEAN, b \in Slabs, w \in Weaks : New(i, s, td, b, w, "p0")
  \/ \E w \in Weaks, u \in BOOLEAN : SetFoundation(i, w, u)
  \/ \E b \in Slabs, u \in BOOLEAN : SetBeam(i, b, u)
  \/ \E p \in Loads : SetSurfaceLoad(i, p)
  \/ \E j \in Inst : Clone(i, j)
  \/ Recalculate(i)
  \/ \E s \in SysSet, td \in BOOLEAN : Retarget(i, s, td)
  \/ \E g \in Geos : SegmentsPlain(i, g, g.a) \/ SegmentsBegin(i, g)
  \/ \E st \in {"A", "B", "C"} : SegmentsEnd(i, st, "len")
  \/ SegmentsFail(i)
  \/ \E r \in BOOLEAN, d \in {"rot", "trans"} : SpringBegin(i, r, d)
  \/ SpringEnd(i)
  \/ SolveBegin(i)
  \/ \E ph \in Phis : Len(sols) < MaxSols /\ SolveEnd(i, ph, "segs")
  \/ Query(i)
Spec == Init /\ [][Next]_wvars

View == <<mods, sols>>
=============================================================================
