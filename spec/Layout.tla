------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Geometry of a model run: segment lists of every system type, admissible  *)
(* requests, crack tips and their weights, newly cracked segments, kinds of *)
(* end conditions, and the raster grid.  Lengths are Reals64 values.        *)
(***************************************************************************)
EXTENDS Snow, FiniteSets

SawTests  == {"pst-", "-pst", "vpst-", "-vpst"}
SlopeNormalSawTests == {"pst-", "-pst"}
Infinite  == {"skier", "skiers"}
Systems   == SawTests \cup Infinite
Springs   == {"rot", "trans"}            \* internal substitute systems
Stages    == {"A", "B", "C"}

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* ---------------------------------------------------------------- segments
\* tdl: unsupported length of a slope-normal saw test (= a without touchdown)
SegmentsOf(system, L, a, m, tdl, ex) ==
  CASE system = "pst-"  -> [li |-> <<L \ominus a, tdl>>, mi |-> <<Zero>>,
                            ki |-> <<TRUE, FALSE>>, k0 |-> <<TRUE, TRUE>>]
    [] system = "-pst"  -> [li |-> <<tdl, L \ominus a>>, mi |-> <<Zero>>,
                            ki |-> <<FALSE, TRUE>>, k0 |-> <<TRUE, TRUE>>]
    [] system = "vpst-" -> [li |-> <<L \ominus a, a>>, mi |-> <<Zero>>,
                            ki |-> <<TRUE, FALSE>>, k0 |-> <<TRUE, TRUE>>]
    [] system = "-vpst" -> [li |-> <<a, L \ominus a>>, mi |-> <<Zero>>,
                            ki |-> <<FALSE, TRUE>>, k0 |-> <<TRUE, TRUE>>]
    [] system = "skier" -> LET b == (L \ominus a) \otimes Half
                               f == a \otimes Half
                           IN [li |-> <<b, f, f, b>>, mi |-> <<Zero, m, Zero>>,
                               ki |-> <<TRUE, FALSE, FALSE, TRUE>>,
                               k0 |-> <<TRUE, TRUE, TRUE, TRUE>>]
    [] system = "skiers" -> ex

TotalLength(li) == RSum(li)
CrackLength(li, ki) == RSum([i \in 1..Len(li) |-> IF ki[i] THEN Zero ELSE li[i]])

\* ------------------------------------------------------ admissible requests
\* lengths of the three lists and the bedding pattern decide
Admissible(system, li, mi, ki) ==
  /\ \E i \in 1..Len(ki) : ki[i]
  /\ Len(li) = Len(ki)
  /\ Len(mi) = Len(li) - 1
  /\ system \in Infinite => ki[1] /\ ki[Len(ki)]

\* ---------------------------------------------------------------- crack tips
\* boundary j lies between segments j and j+1
Tips(ki) == {j \in 1..(Len(ki) - 1) : ki[j] # ki[j + 1]}
\* the crack (maximal unsupported run) a tip belongs to, as <<first, last>>
CrackOf(ki, j) ==
  LET s == IF ki[j] THEN j + 1 ELSE j            \* unsupported neighbour
      lo == CHOOSE i \in 1..s : (\A r \in i..s : ~ki[r]) /\ (i = 1 \/ ki[i - 1])
      hi == CHOOSE i \in s..Len(ki) : (\A r \in s..i : ~ki[r]) /\ (i = Len(ki) \/ ki[i + 1])
  IN <<lo, hi>>
EdgeCrack(ki, c) == c[1] = 1 \/ c[2] = Len(ki)
TipWeight(ki, j) == IF EdgeCrack(ki, CrackOf(ki, j)) THEN One ELSE Half
Cracks(ki) == {CrackOf(ki, j) : j \in Tips(ki)}
\* segments that lose their foundation between the two configurations
NewCrack(k0, ki) == {i \in 1..Len(ki) : k0[i] /\ ~ki[i]}

\* -------------------------------------------------------------- boundaries
\* kind of the condition at an outer end of the slab
EndKind(system, stage, bedded) ==
  CASE system \in {"vpst-", "-vpst"} -> "wedge"
    [] system \in Infinite -> "infinite"
    [] system \in SlopeNormalSawTests /\ (bedded \/ stage = "A") -> "free"
    [] system \in SlopeNormalSawTests /\ ~bedded /\ stage = "B" -> "contact"
    [] system \in SlopeNormalSawTests /\ ~bedded /\ stage = "C" -> "spring"
    [] system \in Springs -> "free"

\* ------------------------------------------------------------------- raster
NonEmpty(li) == SelectSeq([i \in 1..Len(li) |-> i], LAMBDA i : RLt(Zero, li[i]))
Tiny == R("1e-9")
\* number of grid points of the i-th of n non-empty segments, given its share
\* of the requested number (rounded up; the last one gets the end point)
RasterCounts(li, num) ==
  LET ids == NonEmpty(li)
      n == Len(ids)
      tot == TotalLength(li)
      share(i) == (li[ids[i]] \oslash tot) \otimes RInt(num)
      \* a segment of any length has a grid point of its own
      up(i) == LET u == RCeil(share(i) \ominus Tiny) IN IF u < 1 THEN 1 ELSE u
  IN [i \in 1..n |-> IF i = n THEN up(i) + 1 ELSE up(i)]
RECURSIVE CumI(_, _)
CumI(c, i) == IF i = 0 THEN 0 ELSE c[i] + CumI(c, i - 1)
\* which non-empty segment (position in NonEmpty) owns grid point k
OwnerOf(c, k) == CHOOSE i \in 1..Len(c) : CumI(c, i - 1) < k /\ k <= CumI(c, i)
\* coordinate of grid point k
RasterX(li, c, k) ==
  LET ids == NonEmpty(li)
      i == OwnerOf(c, k)
      x0 == RSum([r \in 1..(i - 1) |-> li[ids[r]]])
      j == k - CumI(c, i - 1) - 1                       \* 0-based in segment
      d == IF i = Len(c) THEN c[i] - 1 ELSE c[i]
  IN IF j = 0 THEN x0 ELSE x0 \oplus (li[ids[i]] \otimes (RInt(j) \oslash RInt(d)))
\* bedded grid points; the first point of a segment is the segment boundary
RasterBedded(li, ki, c, k) ==
  LET ids == NonEmpty(li)
      i == OwnerOf(c, k)
      first == k = CumI(c, i - 1) + 1
  IN IF first /\ i > 1 THEN ki[ids[i]] \/ ki[ids[i - 1]] ELSE ki[ids[i]]
=============================================================================
