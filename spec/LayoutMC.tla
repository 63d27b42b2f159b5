------------------------------ MODULE LayoutMC ------------------------------
(***************************************************************************)
(* Exhaustive check of the geometry: every bedding pattern of up to MaxSeg  *)
(* segments with integer lengths, every raster size, every system.          *)
(***************************************************************************)
EXTENDS Layout, TLC

CONSTANTS MaxSeg, MaxLen, MaxNum

VARIABLES li, ki, k0, num, sys

vars == <<li, ki, k0, num, sys>>

RLen == {RInt(n) : n \in 0..MaxLen}
PST == "pst-"

\* build the geometry one segment at a time so that TLC sees every prefix
Init == /\ li = <<>> /\ ki = <<>> /\ k0 = <<>>
        /\ num \in 1..MaxNum
        /\ sys \in {"pst-", "skiers"}
AddSegment(l, b, b0) ==
  /\ Len(li) < MaxSeg
  /\ b => b0                       \* a crack never heals
  /\ li' = Append(li, l) /\ ki' = Append(ki, b) /\ k0' = Append(k0, b0)
  /\ UNCHANGED <<num, sys>>
Next == \E l \in RLen, b \in BOOLEAN, b0 \in BOOLEAN : AddSegment(l, b, b0)
Spec == Init /\ [][Next]_vars

mi == [i \in 1..(Len(li) - 1) |-> Zero]
Solid == Len(li) > 0 /\ RLt(Zero, TotalLength(li)) /\ Admissible(sys, li, mi, ki)

\* every crack advances with total weight one, whatever its number of tips
WeightSum == RSum([i \in 1..Cardinality(Tips(ki)) |->
   TipWeight(ki, CHOOSE j \in Tips(ki) : Cardinality({r \in Tips(ki) : r < j}) = i - 1)])
TipWeightsInv == Solid => REq(WeightSum, RInt(Cardinality(Cracks(ki))))
\* infinite systems have no edge cracks
InfiniteInv == (Solid /\ sys \in Infinite) =>
   \A c \in Cracks(ki) : ~EdgeCrack(ki, c)
\* mirror symmetry of the tip weights
MirrorInv == Solid => \A j \in Tips(ki) :
   LET r == Rev(ki) IN (Len(ki) - j) \in Tips(r) /\ REq(TipWeight(ki, j), TipWeight(r, Len(ki) - j))
\* cracked plus bedded length is the total length
LengthInv == Solid => REq(TotalLength(li),
   CrackLength(li, ki) \oplus RSum([i \in 1..Len(li) |-> IF ki[i] THEN li[i] ELSE Zero]))
NewCrackInv == Solid => \A i \in NewCrack(k0, ki) : ~ki[i] /\ k0[i]

\* raster: starts at 0, ends at the total length, never decreases, contains
\* all boundaries, has at least num + 1 and at most num + #segments points
RasterInv == Solid =>
  LET c == RasterCounts(li, num)
      n == CumI(c, Len(c))
      x == [k \in 1..n |-> RasterX(li, c, k)]
      ids == NonEmpty(li)
  IN /\ n >= num + 1 /\ n <= num + Len(ids)
     /\ REq(x[1], Zero)
     /\ RNear(x[n], TotalLength(li), Tiny)
     /\ \A k \in 1..(n - 1) : RLt(x[k], x[k + 1])
     /\ \A i \in 1..Len(ids) :
          REq(x[CumI(c, i - 1) + 1], RSum([r \in 1..(i - 1) |-> li[ids[r]]]))
\* a grid point inside an unsupported segment is masked, crack tips are not
MaskInv == Solid =>
  LET c == RasterCounts(li, num)
      n == CumI(c, Len(c))
      ids == NonEmpty(li)
  IN \A k \in 1..n :
       LET i == OwnerOf(c, k)
           tip == k = CumI(c, i - 1) + 1 /\ i > 1 /\ ki[ids[i]] # ki[ids[i - 1]]
       IN /\ tip => RasterBedded(li, ki, c, k)
          /\ ~tip => (RasterBedded(li, ki, c, k) = ki[ids[i]])

\* ---------------------------------------------------- segment lists (C05)
\* every system, total length, crack length and touchdown length
Skis == R("80")
SegmentLaws(s, L, a, d) ==
  LET tdl == IF s \in SlopeNormalSawTests THEN RInt(d) ELSE RInt(a)
      x == SegmentsOf(s, RInt(L), RInt(a), Skis, tdl, <<>>)
      gone == RInt(a) \ominus tdl                      \* part on the ground
  IN /\ Len(x.li) = Len(x.ki) /\ Len(x.k0) = Len(x.ki) /\ Len(x.mi) = Len(x.li) - 1
     /\ \A k \in 1..Len(x.li) : RLe(Zero, x.li[k])
     /\ REq(TotalLength(x.li), RInt(L) \ominus gone)
     /\ REq(CrackLength(x.li, x.ki), tdl)
     /\ \A k \in 1..Len(x.k0) : x.k0[k]                \* uncracked: all bedded
     /\ Admissible(s, x.li, x.mi, x.ki)
     /\ (s \in SawTests => RSum(x.mi) = Zero /\ Cardinality(Tips(x.ki)) = 1
           /\ EdgeCrack(x.ki, CrackOf(x.ki, 1)))
     /\ (s = "skier" => /\ REq(RSum(SubSeq(x.li, 1, 2)), RInt(L) \otimes Half)
                        /\ REq(x.mi[2], Skis) /\ REq(RSum(x.mi), Skis)
                        /\ x.li = Rev(x.li) /\ x.ki = Rev(x.ki))
ASSUME \A s \in Systems \ {"skiers"} : \A L \in 1..5 : \A a \in 0..L : \A d \in 0..a :
   SegmentLaws(s, L, a, d)
\* cutting from the other side reverses the lists
ASSUME \A L \in 1..5 : \A a \in 0..L : \A pr \in {<<"pst-", "-pst">>, <<"vpst-", "-vpst">>} :
   LET x == SegmentsOf(pr[1], RInt(L), RInt(a), Zero, RInt(a), <<>>)
       y == SegmentsOf(pr[2], RInt(L), RInt(a), Zero, RInt(a), <<>>)
   IN x.li = Rev(y.li) /\ x.ki = Rev(y.ki) /\ x.mi = Rev(y.mi)
\* end conditions: contact only at the cracked end of touched-down saw tests
ASSUME \A s \in Systems, st \in Stages, b \in BOOLEAN :
   /\ EndKind(s, st, b) \in {"free", "wedge", "infinite", "contact", "spring"}
   /\ (EndKind(s, st, b) \in {"contact", "spring"}) <=>
        (s \in SlopeNormalSawTests /\ st # "A" /\ ~b)
=============================================================================
