---------------------------------- MODULE Flt ----------------------------------
(***************************************************************************)
(* IEEE-754 binary64 arithmetic for TLC.                                   *)
(*                                                                         *)
(* A double is the pair <<hi, lo>> of the two signed 32-bit halves of its  *)
(* bit pattern (TLC integers are 32-bit).  The operators below are the     *)
(* arithmetic PRIMITIVES of the specification: their meaning is the IEEE   *)
(* one and is supplied by the Java class Flt (spec/java/Flt.java), which   *)
(* TLC loads in place of these definitions.  No law of the system lives    *)
(* in Java; everything else in the specification is TLA+ text.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Prim == CHOOSE x : x \notin {}      \* never evaluated: overridden in Java

FInt(n)       == Prim   \* the double n (n a TLC integer)
FRat(n, d)    == Prim   \* the double nearest to n/d
FAdd(a, b)    == Prim
FSub(a, b)    == Prim
FMul(a, b)    == Prim
FDiv(a, b)    == Prim
FNeg(a)       == Prim
FAbs(a)       == Prim
FSqrt(a)      == Prim
FSin(a)       == Prim
FCos(a)       == Prim
FAsin(a)      == Prim
FAtan2(y, x)  == Prim
FPi           == Prim
FMin(a, b)    == Prim
FMax(a, b)    == Prim
FLt(a, b)     == Prim   \* IEEE <
FLe(a, b)     == Prim   \* IEEE <=
FEq(a, b)     == Prim   \* IEEE = (so 0 = -0, NaN # NaN)
FFin(a)       == Prim   \* neither infinite nor NaN
FSignBit(a)   == Prim
FCeil(a)      == Prim   \* smallest TLC integer >= a
FFloat(a)     == Prim   \* a rounded to binary32
FStr(a)       == Prim   \* decimal text, for messages

a (+) b  == FAdd(a, b)
a (-) b  == FSub(a, b)
a (\X) b == FMul(a, b)
a (/) b  == FDiv(a, b)

F0  == FInt(0)
F1  == FInt(1)
F2  == FInt(2)
FHalf == FRat(1, 2)
================================================================================
