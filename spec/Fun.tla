---------------------------------- MODULE Fun ----------------------------------
(***************************************************************************)
(* The stand-alone helper functions: laws on their arguments alone.  Each  *)
(* is judged relative to the size of the terms of its own result, so that  *)
(* very small and very large arguments are judged as sharply as others.    *)
(***************************************************************************)
EXTENDS Lin

(* a is b up to rounding of terms of size s *)
Within1(a, b, s, rel) == FFin(b) /\ FLe(FAbs(a (-) b), rel (\X) s)
ElNear(a, b, rel) == /\ Len(a) = Len(b)
                     /\ \A i \in 1..Len(a) : Within1(a[i], b[i], FAbs(a[i]), rel)
VAbs(a)      == [i \in 1..Len(a) |-> FAbs(a[i])]
MAbs(M)      == [i \in 1..Len(M) |-> VAbs(M[i])]
(* b is M x up to rounding of the terms summed *)
MVecNear(M, x, b, rel) ==
  LET y == MVec(M, x)  s == MVec(MAbs(M), VAbs(x))
  IN Len(b) = Len(y) /\ \A i \in 1..Len(y) : Within1(y[i], b[i], s[i], rel)

(* element-wise, the sign kept *)
Root(x)      == IF FLt(x, F0) THEN FNeg(FSqrt(FAbs(x))) ELSE FSqrt(x)
SignedSquare(v) == VSqSign(v)
SignedRoot(v)   == [i \in 1..Len(v) |-> Root(v[i])]
SignKept(v, b)  == \A i \in 1..Len(v) : /\ FLt(F0, v[i]) <=> FLt(F0, b[i])
                                        /\ FLt(v[i], F0) <=> FLt(b[i], F0)
(* each element into [lo, hi] *)
Clamped(v, lo, hi) == [i \in 1..Len(v) |-> IF FLt(v[i], lo) THEN lo ELSE IF FLt(hi, v[i]) THEN hi ELSE v[i]]

(* half the product of a quaternion, unit or not, and a rate *)
QDerNear(q, w, b, rel) ==
  LET d == QDot(q, w)  s == VNorm(q) (\X) VNorm(w)
  IN Len(b) = 4 /\ \A i \in 1..4 : Within1(d[i], b[i], s, rel)
(* Euler step, then unit length *)
QIntNear(q, w, dt, b, rel) ==
  LET d == QStep(q, w, dt)
  IN Len(b) = 4 /\ \A i \in 1..4 : Within1(d[i], b[i], F1, rel)

(* drag: opposes each component of the velocity and grows with its square *)
DragNear(c, v, b, rel) == ElNear(VScale(FNeg(c), VSqSign(v)), b, rel)
(* aerodynamic moment: -|w| C w *)
AeroNear(C, w, b, rel) ==
  LET k == FNeg(VNorm(w)) IN MVecNear([i \in 1..3 |-> VScale(k, C[i])], w, b, rel)
(* what a mixer makes of rotor speeds and accelerations *)
MixNear(M, w, b, rel) == MVecNear(M, VSqSign(w), b, rel)
TorNear(M, I, w, dw, b, rel) ==
  LET n == Len(w) IN
  MVecNear([i \in 1..3 |-> M[i] \o I[i]], VSqSign(w) \o dw, b, rel)
================================================================================
