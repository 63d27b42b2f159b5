------------------------------ MODULE WeacTrace ------------------------------
(***************************************************************************)
(* Trace validation: a recorded run of the real code (ndjson, one API call  *)
(* per line) must be a behaviour of the life cycle in module Weac, and      *)
(* every observation has to satisfy the clauses of module Judge.            *)
(*                                                                         *)
(* Each line takes the action of its call; a line whose action is not       *)
(* enabled stops the replay (reported as a failure of the machinery).       *)
(***************************************************************************)
EXTENDS Judge

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,        \* next line of the trace
          fails,    \* failing clauses: [line, clause, ev]
          tally     \* how often each clause was evaluated
tvars == <<mods, sols, who, l, seen, fails, tally>>
MaxFails == 300

Init == /\ mods = [i \in Inst |-> Absent] /\ sols = <<>> /\ who = 0
        /\ seen = [i \in Inst |-> <<>>]
        /\ l = 1 /\ fails = <<>> /\ tally = <<>>

Ok(e) == e.exc = ""
Stay == UNCHANGED <<mods, sols>> /\ who' = 0

Act(e) ==
  CASE e.ev = "Reset" -> /\ mods' = [i \in Inst |-> Absent] /\ sols' = <<>> /\ who' = 0
    [] e.ev = "Reject" -> IF e.i = 0 THEN Stay ELSE Query(e.i)
    [] ~Ok(e) -> Stay
    [] e.ev = "New" -> New(e.i, e.sys, e.td, SlabOf(e.lay), WeakOf(e.weak), Zero)
    [] e.ev = "Found" -> SetFoundation(e.i, WeakOf(e.weak), e.update)
    [] e.ev = "Beam" -> SetBeam(e.i, SlabOf(e.lay), e.update)
    [] e.ev = "Load" -> SetSurfaceLoad(e.i, e.p)
    [] e.ev = "Clone" -> Clone(e.src, e.i)
    [] e.ev = "Retarget" -> Retarget(e.i, e.sys, e.td)
    [] e.ev = "Recalc" -> Recalculate(e.i)
    [] e.ev = "Seg" -> IF mods[e.i].td THEN SegmentsTouchdown(e.i, e.geo, e.mode, e.tdl)
                       ELSE SegmentsPlain(e.i, e.geo, e.tdl)
    [] e.ev = "Solve" -> Solve(e.i, e.phi, <<e.li, e.mi, e.ki>>)
    [] e.ev \in {"Tool"} -> Stay
    [] OTHER -> IF e.i = 0 THEN Stay ELSE Query(e.i)

Clauses(e) ==
  IF e.ev = "Reset" THEN <<>>
  ELSE IF e.ev = "Reject" THEN (IF In({"C18", "C15", "C02"}) THEN RejectCl(e) ELSE <<>>) \o StateCl(e) \o PureCl(e)
  ELSE K("answered: " \o e.ev, Ok(e)) \o
  (IF ~Ok(e) THEN <<>> ELSE
   StateCl(e) \o PureCl(e) \o RepeatCl(e) \o
   (CASE e.ev = "Loads" -> LoadCl(e)
      [] e.ev = "Seg" -> SegCl(e) \o ContextCl(e)
      [] e.ev = "Trans" -> TransCl(e)
      [] e.ev = "Subst" -> SubstCl(e)
      [] e.ev = "Solve" -> SolveCl(e)
      [] e.ev = "Eval" -> EvalCl(e)
      [] e.ev = "Raster" -> RasterCl(e)
      [] e.ev = "Gdif" -> GdifCl(e)
      [] e.ev = "Ginc" -> GincCl(e)
      [] e.ev = "Potential" -> PotentialCl(e)
      [] e.ev = "Fields" -> FieldCl(e) \o SignCl(e)
      [] e.ev = "Getter" -> GetterCl(e)
      [] e.ev = "Stress" -> MeshCl(e) \o StressCl(e)
      [] e.ev = "Principal" -> PrincipalCl(e)
      [] e.ev = "Relate" -> RelateCl(e)
      [] e.ev = "Linear" -> LinearCl(e)
      [] e.ev = "Tool" -> ToolCl(e)
      [] e.ev = "Plot" -> PlotCl(e)
      [] OTHER -> <<>>))

Bump(t, n) == IF n \in DOMAIN t THEN [t EXCEPT ![n] = @ + 1] ELSE (n :> 1) @@ t
T0 == [x \in {} |-> 0]
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ Act(e)
     /\ LET cl == TLCEval(Clauses(e))
            bad == SelectSeq(cl, LAMBDA c : ~c[2])
        IN /\ fails' = IF Len(fails) >= MaxFails THEN fails
                       ELSE fails \o [k \in 1..Len(bad) |-> [line |-> l, clause |-> bad[k][1], ev |-> e.ev]]
           /\ tally' = FoldLeft(LAMBDA t, c : Bump(t, c[1]), IF tally = <<>> THEN T0 ELSE tally, cl)
     /\ seen' = IF e.ev = "Reset" THEN [i \in Inst |-> <<>>]
                ELSE [i \in Inst |->
                  LET k == {r \in 1..Len(e.proj) : e.proj[r][1] = i}
                  IN IF k = {} THEN seen[i] ELSE <<e.proj[CHOOSE r \in k : TRUE][2]>>]
     /\ l' = l + 1
     /\ l = Len(Trace) =>
          JsonSerialize(IOEnv.OUT, [fails |-> fails', tally |-> tally', lines |-> l])
Spec == Init /\ [][Next]_tvars
=============================================================================
