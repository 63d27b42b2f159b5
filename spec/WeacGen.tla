------------------------------- MODULE WeacGen -------------------------------
(***************************************************************************)
(* Random behaviours of the life cycle (TLC -simulate), written down as     *)
(* sequences of API calls, one JSON line per behaviour.  The driver replays *)
(* them on the real code; the recorded trace is then validated against the  *)
(* same life cycle by WeacTrace.                                            *)
(*                                                                         *)
(* Parameters are tokens (numbers are chosen by the driver).  Profile       *)
(* selects which calls are offered.                                         *)
(***************************************************************************)
EXTENDS Weac, TLC, Json, IOUtils, CSV

CONSTANTS Slabs, Weaks, Loads, GeoToks, SysSet, Depth, TdChoices, Rejects, Queries

VARIABLE hist
gvars == <<mods, sols, who, hist>>

Init == /\ mods = [i \in Inst |-> Absent] /\ sols = <<>> /\ who = 0 /\ hist = <<>>

Log(r) == hist' = Append(hist, r)
Upd(i) == Idle(i) /\ mods[i].upd
HasCtx(i) == Idle(i) /\ mods[i].ctx # None
\* a context which still belongs to the current parameters of the object
Coherent(i) == /\ HasCtx(i) /\ Upd(i)
               /\ mods[i].ctx.tc.weak = mods[i].weak /\ mods[i].ctx.tc.slab = mods[i].slab
               /\ mods[i].ctx.tc.p = mods[i].p
Geo(g) == [L |-> g, a |-> g, phi |-> g, cf |-> g, ratio |-> g]
\* solutions that may still be evaluated: those of the object's parameters
Live(s) == LET m == mods[sols[s].inst] IN
  /\ m.slab = sols[s].slab /\ m.weak = sols[s].weak /\ m.p = sols[s].p
  /\ m.sys = sols[s].sys
  /\ m.upd /\ sols[s].upd

\* one successor per call and token choice, so that the simulator picks calls
\* evenly; k counts how many tickets a call has in the draw
Draw(S) == {RandomElement(S)}
T == {TRUE, FALSE}
Turn(i, s, t) == LET td == t /\ s \in {"pst-", "-pst"} IN
  /\ Alive(i)
  /\ s # mods[i].sys \/ td # mods[i].td
  /\ Retarget(i, s, td) /\ Log([op |-> "turn", i |-> i, sys |-> s, td |-> td])
NextI(i) ==
  \/ \E s \in Draw(SysSet), t \in Draw(TdChoices), b \in Draw(Slabs) :
       LET td == t /\ s \in {"pst-", "-pst"} IN
       /\ New(i, s, td, b, "w0", "p0")
       /\ Log([op |-> "new", i |-> i, sys |-> s, td |-> td, b |-> b])
  \/ \E j \in Draw(Inst) :
       Clone(j, i) /\ Log([op |-> "clone", i |-> i, j |-> j])
  \/ \E w \in Draw(Weaks), u \in Draw(T) :
       SetFoundation(i, w, u) /\ Log([op |-> "found", i |-> i, w |-> w, u |-> u])
  \/ \E b \in Draw(Slabs), u \in Draw(T) :
       SetBeam(i, b, u) /\ Log([op |-> "beam", i |-> i, b |-> b, u |-> u])
  \/ \E p \in Draw(Loads) :
       SetSurfaceLoad(i, p) /\ Log([op |-> "load", i |-> i, p |-> p])
  \/ \E s \in Draw(SysSet), t \in Draw(TdChoices) : Turn(i, s, t)
  \/ \E k \in 1..(IF Idle(i) /\ ~mods[i].upd THEN 2 ELSE 1) :
       Recalculate(i) /\ Log([op |-> "recalc", i |-> i, k |-> k])
  \/ \E k \in 1..(IF HasCtx(i) THEN 1 ELSE 2), g \in Draw(GeoToks) :
       /\ Upd(i)
       /\ \/ SegmentsPlain(i, Geo(g), g)
          \/ SegmentsTouchdown(i, Geo(g), "A", g)
       /\ Log([op |-> "seg", i |-> i, g |-> g, k |-> k])
  \/ \E r \in Draw(T), d \in Draw({"rot", "trans"}) :
       /\ Coherent(i)
       /\ Query(i)
       /\ Log([op |-> "subst", i |-> i, r |-> r, d |-> d])
  \/ Coherent(i) /\ mods[i].td /\ Query(i) /\ Log([op |-> "trans", i |-> i])
  \/ \E k \in 1..3, n \in Draw({1, 2, 3}) :
       /\ Coherent(i) /\ Len(sols) < 12
       /\ Solve(i, mods[i].ctx.geo.phi, n)
       /\ Log([op |-> "solve", i |-> i, c |-> n # 1, s |-> Len(sols) + 1, k |-> k])
  \/ LET S == {s \in 1..Len(sols) : sols[s].inst = i /\ Live(s)} IN
       /\ S # {}
       /\ \E k \in 1..5, s \in Draw(S), q \in Draw(Queries) :
            Query(i) /\ Log([op |-> "query", i |-> i, s |-> s, q |-> q, k |-> k])
  \/ \E r \in Draw(Rejects) : Query(i) /\ Log([op |-> "reject", i |-> i, r |-> r])

\* Churn: two objects; every round changes one parameter of one of them and
\* asks the same questions again.  Whatever the code remembers by some of the
\* parameters only answers for the wrong ones then.
CONSTANTS Churn, Asked
NoneAsked == <<>>
AllAsked == <<"stress", "fields", "loads", "gdif", "raster">>
FewAsked == <<"raster">>
Round == 3 + Len(Asked)
Pos == (Len(hist) - 2) % Round
Cur == hist[Len(hist) - Pos].i
Change(i) ==
  \/ \E w \in Draw(Weaks \ {mods[i].weak}) :
       SetFoundation(i, w, TRUE) /\ Log([op |-> "found", i |-> i, w |-> w, u |-> TRUE])
  \/ \E b \in Draw(Slabs \ {mods[i].slab}), k \in 1..2 :
       SetBeam(i, b, TRUE) /\ Log([op |-> "beam", i |-> i, b |-> b, u |-> TRUE, k |-> k])
  \/ \E p \in Draw(Loads \ {mods[i].p}) :
       SetSurfaceLoad(i, p) /\ Log([op |-> "load", i |-> i, p |-> p])
  \/ \E s \in Draw(SysSet), t \in Draw(TdChoices) : Turn(i, s, t)
NextChurn ==
  IF Len(hist) < 2
  THEN LET i == Len(hist) + 1 IN
       \E s \in Draw(SysSet), t \in Draw(TdChoices), b \in Draw(Slabs) :
         LET s1 == IF i = 1 THEN s ELSE mods[1].sys
             td == IF i = 1 THEN t /\ s \in {"pst-", "-pst"} ELSE mods[1].td
         IN /\ New(i, s1, td, b, "w0", "p0")
            /\ Log([op |-> "new", i |-> i, sys |-> s1, td |-> td, b |-> b])
  ELSE CASE Pos = 0 -> \E i \in Inst : Change(i)
         [] Pos = 1 -> \E g \in Draw(GeoToks) :
              /\ SegmentsPlain(Cur, Geo(g), g) \/ SegmentsTouchdown(Cur, Geo(g), "A", g)
              /\ Log([op |-> "seg", i |-> Cur, g |-> g])
         [] Pos = 2 -> /\ Solve(Cur, mods[Cur].ctx.geo.phi, 1)
                       /\ Log([op |-> "solve", i |-> Cur, c |-> TRUE, s |-> Len(sols) + 1])
         [] OTHER -> /\ Query(Cur)
                     /\ Log([op |-> "query", i |-> Cur, s |-> Len(sols), q |-> Asked[Pos - 2]])

Next == \/ /\ Len(hist) < Depth
           /\ IF Churn THEN NextChurn ELSE \E i \in Inst : NextI(i)
        \/ /\ Len(hist) = Depth
           /\ Log([op |-> "end"]) /\ UNCHANGED <<mods, sols, who>>
Spec == Init /\ [][Next]_gvars

Emit == Len(hist) > Depth => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
=============================================================================
