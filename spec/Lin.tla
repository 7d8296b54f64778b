---------------------------------- MODULE Lin ----------------------------------
(***************************************************************************)
(* Vectors (tuples of doubles, any length), matrices (tuples of rows),     *)
(* quaternions (<<w, x, y, z>>), Euler angles and comparison up to a       *)
(* tolerance.  The Java class Lin (spec/java/Lin.java) re-implements the   *)
(* operators of the first two sections for speed only: with that class     *)
(* off the class path TLC evaluates the definitions below and must give    *)
(* the same results (checked by spec/MC_Lin.tla).                          *)
(***************************************************************************)
EXTENDS Flt, TLC

LOCAL Elementwise1(Op(_), a)       == TLCEval([i \in 1..Len(a) |-> Op(a[i])])
LOCAL Elementwise2(Op(_,_), a, b)  == TLCEval([i \in 1..Len(a) |-> Op(a[i], b[i])])

-----------------------------------------------------------------------------
(* vectors *)
VAdd(a, b)    == Elementwise2(FAdd, a, b)
VSub(a, b)    == Elementwise2(FSub, a, b)
VMul(a, b)    == Elementwise2(FMul, a, b)              \* component-wise
VScale(s, a)  == LET m(x) == FMul(s, x) IN Elementwise1(m, a)
VNeg(a)       == Elementwise1(FNeg, a)
VRep(n, x)    == TLCEval([i \in 1..n |-> x])
RECURSIVE VSumTo(_, _)
VSumTo(a, n)  == IF n = 0 THEN FInt(0) ELSE FAdd(VSumTo(a, n-1), a[n])
VSum(a)       == VSumTo(a, Len(a))
VDot(a, b)    == VSum(VMul(a, b))
VNorm(a)      == FSqrt(VDot(a, a))
RECURSIVE VMaxTo(_, _)
VMaxTo(a, n)  == IF n = 0 THEN FInt(0) ELSE FMax(VMaxTo(a, n-1), FAbs(a[n]))
VMaxAbs(a)    == VMaxTo(a, Len(a))
VClamp(a, lo, hi) == TLCEval([i \in 1..Len(a) |->
                        IF FLt(hi[i], a[i]) THEN hi[i]
                        ELSE IF FLt(a[i], lo[i]) THEN lo[i] ELSE a[i]])
SqSign(x)     == FMul(x, FAbs(x))                      \* x|x|
VSqSign(a)    == Elementwise1(SqSign, a)
VFin(a)       == \A i \in 1..Len(a) : FFin(a[i])
VIsZero(a)    == \A i \in 1..Len(a) : FEq(a[i], FInt(0))
VSame(a, b)   == /\ Len(a) = Len(b)                     \* equal as numbers
                 /\ \A i \in 1..Len(a) : FEq(a[i], b[i]) \/ a[i] = b[i]
Cross(a, b)   == << (a[2] (\X) b[3]) (-) (a[3] (\X) b[2]),
                    (a[3] (\X) b[1]) (-) (a[1] (\X) b[3]),
                    (a[1] (\X) b[2]) (-) (a[2] (\X) b[1]) >>
(* unit vector; the zero vector is left unchanged *)
VUnit(a)      == LET n == VNorm(a) IN
                 IF FLt(FInt(0), n) THEN TLCEval([i \in 1..Len(a) |-> FDiv(a[i], n)]) ELSE a

(* |a_i - b_i| <= rel * (1 + max|a| + max|b|) in every component, and equal
   length; a NaN matches nothing, an infinity only itself *)
VNear(a, b, rel) ==
  /\ Len(a) = Len(b)
  /\ LET tol == rel (\X) (FInt(1) (+) (VMaxAbs(a) (+) VMaxAbs(b)))
     IN \A i \in 1..Len(a) : a[i] = b[i] \/ FLe(FAbs(a[i] (-) b[i]), tol)

-----------------------------------------------------------------------------
(* matrices and quaternions *)
MVec(M, x)    == TLCEval([i \in 1..Len(M) |-> VDot(M[i], x)])
MT(M)         == TLCEval([j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]])
MMul(A, B)    == LET Bt == MT(B) IN
                 TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> VDot(A[i], Bt[j])]])
Det3(M)       == VDot(M[1], Cross(M[2], M[3]))
Inv3(M)       == LET c1 == Cross(M[2], M[3])            \* rows of the adjugate's transpose
                     c2 == Cross(M[3], M[1])
                     c3 == Cross(M[1], M[2])
                     det == VDot(M[1], c1)
                 IN << << c1[1] (/) det, c2[1] (/) det, c3[1] (/) det >>,
                       << c1[2] (/) det, c2[2] (/) det, c3[2] (/) det >>,
                       << c1[3] (/) det, c2[3] (/) det, c3[3] (/) det >> >>
(* Hamilton product *)
QMul(p, q)    == << (((p[1] (\X) q[1]) (-) (p[2] (\X) q[2])) (-) (p[3] (\X) q[3])) (-) (p[4] (\X) q[4]),
                    (((p[1] (\X) q[2]) (+) (p[2] (\X) q[1])) (+) (p[3] (\X) q[4])) (-) (p[4] (\X) q[3]),
                    (((p[1] (\X) q[3]) (+) (p[3] (\X) q[1])) (+) (p[4] (\X) q[2])) (-) (p[2] (\X) q[4]),
                    (((p[1] (\X) q[4]) (+) (p[4] (\X) q[1])) (+) (p[2] (\X) q[3])) (-) (p[3] (\X) q[2]) >>
(* conjugate over squared norm *)
QInv(q)       == LET n == VDot(q, q) IN
                 << q[1] (/) n, FNeg(q[2]) (/) n, FNeg(q[3]) (/) n, FNeg(q[4]) (/) n >>
(* rotation of x by the unit quaternion q *)
QRot(q, x)    == LET u  == <<q[2], q[3], q[4]>>
                     t  == VScale(FInt(2), Cross(u, x))
                 IN VAdd(VAdd(x, VScale(q[1], t)), Cross(u, t))
(* rotation matrix of the unit quaternion q *)
QMat(q)       == MT(<< QRot(q, <<FInt(1), FInt(0), FInt(0)>>),
                       QRot(q, <<FInt(0), FInt(1), FInt(0)>>),
                       QRot(q, <<FInt(0), FInt(0), FInt(1)>>) >>)

-----------------------------------------------------------------------------
(* derived notions, plain TLA+ *)
F01(b)   == IF b THEN F1 ELSE F0
V3(x, y, z) == <<x, y, z>>
Zero3    == <<F0, F0, F0>>
VZero(n) == VRep(n, F0)
VOnes(n) == VRep(n, F1)
QId      == <<F1, F0, F0, F0>>
QUnit(q) == VUnit(q)
(* time derivative of q under body rate w *)
QDot(q, w) == VScale(FHalf, QMul(q, <<F0, w[1], w[2], w[3]>>))
(* one explicit Euler step of the attitude kinematics *)
QStep(q, w, dt) == QUnit(VAdd(q, VScale(dt, QDot(q, w))))

(* intrinsic z-y-x angles of a quaternion (normalised first) *)
Roll(q0)  == LET q == QUnit(q0) IN
             FAtan2(F2 (\X) ((q[1] (\X) q[2]) (+) (q[3] (\X) q[4])),
                    F1 (-) (F2 (\X) ((q[2] (\X) q[2]) (+) (q[3] (\X) q[3]))))
SinPitch(q0) == LET q == QUnit(q0) IN F2 (\X) ((q[1] (\X) q[3]) (-) (q[4] (\X) q[2]))
Pitch(q0) == LET s == SinPitch(q0) IN
             IF FLe(F1, s) THEN FPi (/) F2
             ELSE IF FLe(s, FNeg(F1)) THEN FNeg(FPi) (/) F2 ELSE FAsin(s)
Yaw(q0)   == LET q == QUnit(q0) IN
             FAtan2(F2 (\X) ((q[1] (\X) q[4]) (+) (q[2] (\X) q[3])),
                    F1 (-) (F2 (\X) ((q[3] (\X) q[3]) (+) (q[4] (\X) q[4]))))

Near(a, b, rel) == VNear(<<a>>, <<b>>, rel)
(* angles compared on the circle *)
NearAngle(a, b, rel) ==
  \/ Near(a, b, rel)
  \/ Near(a (+) (F2 (\X) FPi), b, rel)
  \/ Near(a (-) (F2 (\X) FPi), b, rel)
================================================================================
