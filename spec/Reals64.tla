------------------------------ MODULE Reals64 ------------------------------
(***************************************************************************)
(* IEEE-754 double precision reals for TLC.                                 *)
(*                                                                         *)
(* A real is the pair <<hi, lo>> of the two (signed) 32-bit halves of its   *)
(* bit pattern.  TLC's integers are 32 bit and it has no reals, so the      *)
(* operators below are given their meaning by the Java class                *)
(* spec/java/Reals64.java (same-name operator overrides).  The right-hand   *)
(* sides here are only placeholders for the parser.  Every predicate is     *)
(* FALSE when an argument is NaN, so a NaN can never make a check pass.     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RNum == Int \X Int

R(s)         == CHOOSE r \in RNum : TRUE      \* literal: R("0.25")
RInt(n)      == CHOOSE r \in RNum : TRUE      \* integer -> real
RCeil(a)     == CHOOSE n \in Int : TRUE       \* real -> integer
RFloor(a)    == CHOOSE n \in Int : TRUE
RStr(a)      == CHOOSE s \in STRING : TRUE

RAdd(a, b)   == CHOOSE r \in RNum : TRUE
RSub(a, b)   == CHOOSE r \in RNum : TRUE
RMul(a, b)   == CHOOSE r \in RNum : TRUE
RDiv(a, b)   == CHOOSE r \in RNum : TRUE
a \oplus b   == RAdd(a, b)
a \ominus b  == RSub(a, b)
a \otimes b  == RMul(a, b)
a \oslash b  == RDiv(a, b)
RNeg(a)      == CHOOSE r \in RNum : TRUE
RAbs(a)      == CHOOSE r \in RNum : TRUE
RSqrt(a)     == CHOOSE r \in RNum : TRUE
RPow(a, b)   == CHOOSE r \in RNum : TRUE
RExp(a)      == CHOOSE r \in RNum : TRUE
RSin(a)      == CHOOSE r \in RNum : TRUE
RCos(a)      == CHOOSE r \in RNum : TRUE
RTan(a)      == CHOOSE r \in RNum : TRUE
RRad(a)      == CHOOSE r \in RNum : TRUE      \* degrees -> radians
RMax(a, b)   == CHOOSE r \in RNum : TRUE
RMin(a, b)   == CHOOSE r \in RNum : TRUE

RLt(a, b)    == CHOOSE x \in BOOLEAN : TRUE
RLe(a, b)    == CHOOSE x \in BOOLEAN : TRUE
REq(a, b)    == CHOOSE x \in BOOLEAN : TRUE
RIsNaN(a)    == CHOOSE x \in BOOLEAN : TRUE
RIsFinite(a) == CHOOSE x \in BOOLEAN : TRUE
RNear(a, b, tol) == CHOOSE x \in BOOLEAN : TRUE   \* |a - b| <= tol

RSum(v)      == CHOOSE r \in RNum : TRUE      \* sum of a sequence of reals
RDot(u, v)   == CHOOSE r \in RNum : TRUE
RMaxAbs(v)   == CHOOSE r \in RNum : TRUE
RVAdd(u, v)  == CHOOSE r \in Seq(RNum) : TRUE
RVSub(u, v)  == CHOOSE r \in Seq(RNum) : TRUE
RVMul(u, v)  == CHOOSE r \in Seq(RNum) : TRUE \* elementwise
RVScale(s, v) == CHOOSE r \in Seq(RNum) : TRUE
RVAbs(v)     == CHOOSE r \in Seq(RNum) : TRUE
RVNear(u, v, tol) == CHOOSE x \in BOOLEAN : TRUE
RVFinite(v)  == CHOOSE x \in BOOLEAN : TRUE
=============================================================================
