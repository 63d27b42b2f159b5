------------------------------ MODULE LayoutGen ------------------------------
(***************************************************************************)
(* Enumeration of request structures for the real code: every admissible    *)
(* bedding pattern of up to MaxSeg segments, before and after cracking,     *)
(* with zero-length segments and skiers anywhere.  TLC writes one JSON line *)
(* per structure; the driver gives it numbers.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS MaxSeg

VARIABLE segs       \* sequence of [b, b0, z, s]
Init == segs = <<>>
Next == /\ Len(segs) < MaxSeg
        /\ \E b, b0, z, s \in BOOLEAN :
             /\ b => b0
             /\ segs' = Append(segs, [b |-> b, b0 |-> b0, z |-> z, s |-> s])
Spec == Init /\ [][Next]_segs

N == Len(segs)
\* at least one segment with a length, one bedded with a length; the skier
\* flag of the last segment has no boundary to stand on
Usable == /\ N > 0
          /\ ~segs[N].s
          /\ \E k \in 1..N : segs[k].b /\ ~segs[k].z
\* no more than two zero-length segments
Few == LET Z == {k \in 1..N : segs[k].z} IN
       \A a, b, c \in Z : a = b \/ a = c \/ b = c
Emit == (Usable /\ Few) => CSVWrite("%1$s", <<ToJson([segs |-> segs])>>, IOEnv.GENOUT)
=============================================================================
