-------------------------------- MODULE Weac --------------------------------
(***************************************************************************)
(* Life cycle of weac model objects.                                        *)
(*                                                                         *)
(* The state of an object is written down by PROVENANCE: which parameters   *)
(* it has now, and from which parameters each derived quantity (foundation  *)
(* stiffness, laminate stiffness, eigensystem, touchdown context, solution) *)
(* was computed.  Parameters are opaque values here: tokens in the          *)
(* exhaustive model (WeacMC), numbers in trace validation (WeacTrace),      *)
(* where module Snow interprets provenance numerically.                     *)
(*                                                                         *)
(* One action per API call; the substitute-stiffness computation, which     *)
(* temporarily turns the object into another system on another foundation,  *)
(* is split into its begin/end steps so that every intermediate state is    *)
(* explored (and other objects may act in between).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Inst                \* object identities

VARIABLES
  mods,    \* [Inst -> object state or Absent]
  sols,    \* solutions held by the user: sequence of provenance records
  who      \* the object the last step acted on (0: none)

wvars == <<mods, sols, who>>

Absent == [alive |-> FALSE]
None   == [none |-> TRUE]

\* --------------------------------------------------------- derived states
EigOf(m, scaled) == [dw |-> m.dw, db |-> m.db, t |-> m.weak, b |-> m.slab, scaled |-> scaled]

Fresh(m) == /\ m.dw = m.weak /\ m.db = m.slab
            /\ m.eig = EigOf(m, FALSE)

\* what a freshly built object with the given parameters looks like
Built(sys, td, slab, weak, p) ==
  LET m0 == [alive |-> TRUE, sys |-> sys, sysNow |-> sys, td |-> td,
             slab |-> slab, weak |-> weak, p |-> p,
             dw |-> weak, db |-> slab, eig |-> None, scaled |-> FALSE,
             upd |-> TRUE, ctx |-> None, pc |-> "idle", saved |-> None]
  IN [m0 EXCEPT !.eig = EigOf(m0, FALSE)]

Recalculated(m) ==
  LET m1 == [m EXCEPT !.dw = m.weak, !.db = m.slab, !.upd = TRUE]
  IN [m1 EXCEPT !.eig = EigOf(m1, FALSE)]

Alive(i) == mods[i].alive
Idle(i)  == Alive(i) /\ mods[i].pc = "idle"

Set(i, m) == /\ mods' = [mods EXCEPT ![i] = m]
             /\ who' = i

\* -------------------------------------------------- configuration actions
New(i, sys, td, slab, weak, p) ==
  /\ ~Alive(i)
  /\ Set(i, Built(sys, td, slab, weak, p))
  /\ UNCHANGED sols

\* A deep copy is an object of its own.
Clone(i, j) ==
  /\ Idle(i) /\ ~Alive(j)
  /\ Set(j, mods[i])
  /\ UNCHANGED sols

SetFoundation(i, weak, update) ==
  /\ Idle(i)
  /\ LET m == [mods[i] EXCEPT !.weak = weak, !.upd = FALSE]
     IN Set(i, IF update THEN Recalculated(m) ELSE m)
  /\ UNCHANGED sols

SetBeam(i, slab, update) ==
  /\ Idle(i)
  /\ LET m == [mods[i] EXCEPT !.slab = slab, !.upd = FALSE]
     IN Set(i, IF update THEN Recalculated(m) ELSE m)
  /\ UNCHANGED sols

SetSurfaceLoad(i, p) ==
  /\ Idle(i)
  /\ Set(i, [mods[i] EXCEPT !.p = p])
  /\ UNCHANGED sols

\* The object is turned into another system (documented attributes system and
\* touchdown): stiffnesses stay valid, the touchdown context does not.
Retarget(i, sys, td) ==
  /\ Idle(i)
  /\ Set(i, [mods[i] EXCEPT !.sys = sys, !.sysNow = sys, !.td = td, !.ctx = None])
  /\ UNCHANGED sols

Recalculate(i) ==
  /\ Idle(i)
  /\ Set(i, Recalculated(mods[i]))
  /\ UNCHANGED sols

\* ----------------------------------------------- segments and touchdown
\* geo = [L, a, phi, cf, ratio]; inclination is set before the collapse height
CtxOf(m, geo) ==
  [geo |-> geo, stage |-> "", tdl |-> "",
   tc |-> [cf |-> geo.cf, weak |-> m.weak, dw |-> m.dw, slab |-> m.slab,
           p |-> m.p, phi |-> geo.phi]]

SegmentsPlain(i, geo, tdl) ==          \* no touchdown: stage A, full crack length
  /\ Idle(i) /\ ~mods[i].td
  /\ Set(i, [mods[i] EXCEPT !.ctx = [CtxOf(mods[i], geo) EXCEPT !.stage = "A", !.tdl = tdl]])
  /\ UNCHANGED sols

SegmentsBegin(i, geo) ==               \* touchdown: attributes first, then springs
  /\ Idle(i) /\ mods[i].td
  /\ Set(i, [mods[i] EXCEPT !.ctx = CtxOf(mods[i], geo), !.pc = "segments"])
  /\ UNCHANGED sols

SegmentsEnd(i, stage, tdl) ==
  /\ Alive(i) /\ mods[i].pc = "segments"
  /\ Set(i, [mods[i] EXCEPT !.ctx.stage = stage, !.ctx.tdl = tdl, !.pc = "idle"])
  /\ UNCHANGED sols

SegmentsFail(i) ==                     \* no root: an error, object stays usable
  /\ Alive(i) /\ mods[i].pc = "segments"
  /\ Set(i, [mods[i] EXCEPT !.pc = "idle"])
  /\ UNCHANGED sols

\* A touchdown segmentation as one step (for traces, where the intermediate
\* states are not visible): Begin, any number of springs, End.
SegmentsTouchdown(i, geo, stage, tdl) ==
  /\ Idle(i) /\ mods[i].td
  /\ Set(i, [mods[i] EXCEPT !.ctx = [CtxOf(mods[i], geo) EXCEPT !.stage = stage, !.tdl = tdl]])
  /\ UNCHANGED sols

\* ------------------------------------------------- substitute stiffnesses
SpringBegin(i, rested, dof) ==
  /\ Alive(i) /\ mods[i].pc \in {"idle", "segments", "solving"}
  /\ LET m == mods[i]
         m1 == [m EXCEPT !.saved = [sys |-> m.sysNow, pc |-> m.pc, rested |-> rested],
                         !.sysNow = dof, !.pc = "spring", !.scaled = rested]
     IN Set(i, IF rested THEN [m1 EXCEPT !.eig = EigOf(m1, TRUE)] ELSE m1)
  /\ UNCHANGED sols

\* normal and failing end alike: everything is put back
SpringEnd(i) ==
  /\ Alive(i) /\ mods[i].pc = "spring"
  /\ LET m == mods[i]
         m1 == [m EXCEPT !.sysNow = m.saved.sys, !.pc = m.saved.pc, !.scaled = FALSE,
                         !.saved = None]
     IN Set(i, IF m.saved.rested THEN [m1 EXCEPT !.eig = EigOf(m1, FALSE)] ELSE m1)
  /\ UNCHANGED sols

\* ------------------------------------------------------------- solving
\* phi, segs: as passed by the user; stage conditions come from the context
ProvOf(i, phi, segs) ==
  [inst |-> i, sys |-> mods[i].sys, slab |-> mods[i].slab, weak |-> mods[i].weak,
   p |-> mods[i].p, upd |-> mods[i].upd, dw |-> mods[i].dw, db |-> mods[i].db, eig |-> mods[i].eig,
   phi |-> phi, segs |-> segs, ctx |-> mods[i].ctx]

SolveBegin(i) ==
  /\ Idle(i)
  /\ Set(i, [mods[i] EXCEPT !.pc = "solving"])
  /\ UNCHANGED sols

SolveEnd(i, phi, segs) ==
  /\ Alive(i) /\ mods[i].pc = "solving"
  /\ sols' = Append(sols, ProvOf(i, phi, segs))
  /\ Set(i, [mods[i] EXCEPT !.pc = "idle"])

Solve(i, phi, segs) ==                 \* both in one step, for traces
  /\ Idle(i)
  /\ sols' = Append(sols, ProvOf(i, phi, segs))
  /\ Set(i, mods[i])

\* ------------------------------------------------------------- queries
\* Rasterizing, field quantities, energy release rates, stresses, getters,
\* plots; also every rejected call.  Nothing changes.
Query(i) ==
  /\ Idle(i)
  /\ who' = i
  /\ UNCHANGED <<mods, sols>>

\* ------------------------------------------------------------ properties
\* C02: whenever no computation is under way the temporary system and the
\* temporary foundation are gone
NoLeak == \A i \in Inst : Alive(i) /\ mods[i].pc # "spring" =>
            mods[i].sysNow = mods[i].sys /\ ~mods[i].scaled /\ mods[i].saved = None
\* C01: an object that was recalculated after its last change is fresh
UpToDate == \A i \in Inst : Alive(i) /\ mods[i].pc # "spring" /\ mods[i].upd => Fresh(mods[i])
\* C01: ... and is indistinguishable from a newly built one
HistoryFree == \A i \in Inst : Idle(i) /\ mods[i].upd =>
   LET m == mods[i] IN
   m = [Built(m.sys, m.td, m.slab, m.weak, m.p) EXCEPT !.ctx = m.ctx]
\* C16: the collapse height always belongs to the inclination of its context
CtxCoherent == \A i \in Inst : Alive(i) /\ mods[i].ctx # None =>
   mods[i].ctx.tc.phi = mods[i].ctx.geo.phi /\ mods[i].ctx.tc.cf = mods[i].ctx.geo.cf
\* C01: a step on one object leaves all others alone
Isolation == [][\A j \in Inst : j # who' => mods'[j] = mods[j]]_wvars
\* C02: solutions held by the user never change
SolutionsStable == [][Len(sols') >= Len(sols) /\ SubSeq(sols', 1, Len(sols)) = sols]_wvars
\* C01: solutions of an up-to-date object belong to its own parameters, on
\* the unscaled foundation
SolutionProv == \A s \in 1..Len(sols) : sols[s].upd =>
   /\ sols[s].dw = sols[s].weak /\ sols[s].db = sols[s].slab
   /\ sols[s].eig = [dw |-> sols[s].weak, db |-> sols[s].slab, t |-> sols[s].weak,
                     b |-> sols[s].slab, scaled |-> FALSE]
\* C16/C17: a context under construction is only visible while segmenting
StagePending == \A i \in Inst : Idle(i) /\ mods[i].ctx # None /\ ~mods[i].td =>
   mods[i].ctx.stage = "A"
=============================================================================
