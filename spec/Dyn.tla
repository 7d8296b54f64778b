---------------------------------- MODULE Dyn ----------------------------------
(***************************************************************************)
(* Rigid-body motion.  A vehicle state is the record                       *)
(* [p, q, v, w, a, dw, F, T, mw, ma]: position, orientation, linear and    *)
(* angular velocity, their accelerations, net force (world) and torque     *)
(* (body), motor speeds and accelerations.                                 *)
(***************************************************************************)
EXTENDS Model, SequencesExt

MaxSub == FRat(1, 100)       \* longest integration substep, 10 ms

StateZero(n) == [p |-> Zero3, q |-> QId, v |-> Zero3, w |-> Zero3, a |-> Zero3, dw |-> Zero3,
                 F |-> Zero3, T |-> Zero3, mw |-> VZero(n), ma |-> VZero(n)]

(* motors: first-order lag towards the limited command *)
MotorAcc(m, mw, cmd) == VMul(VSub(VClamp(cmd, m.mn, m.mx), mw), m.it)
MotorStep(m, mw, ma, dt) == VClamp(VAdd(mw, VScale(dt, ma)), m.mn, m.mx)

(* k equal steps of the lag under one command, for steps no longer than the lag *)
RECURSIVE FPowI(_, _)
FPowI(x, k) == IF k = 0 THEN F1
               ELSE LET h == FPowI(x, k \div 2) IN IF k % 2 = 0 THEN h (\X) h ELSE x (\X) (h (\X) h)
MotorsAfter(m, mw, cmd, dt, k) ==
  LET c == VClamp(cmd, m.mn, m.mx)
  IN TLCEval([i \in 1..Len(mw) |-> c[i] (+) ((mw[i] (-) c[i]) (\X) FPowI(F1 (-) (dt (\X) m.it[i]), k))])

NetForce(m, s, ext, nf) ==
  VAdd(VAdd(VAdd(VAdd(QRot(s.q, MotorForce(m, s.mw)), Weight(m)), Drag(m, s.v)), nf), ext)
NetTorque(m, s, ma, nm) ==
  VSub(VAdd(VAdd(MotorTorque(m, s.mw, ma), AeroMoment(m, s.w)), nm),
       Cross(s.w, MVec(m.par.J, s.w)))

(* one substep; nf and nm are this step's stochastic force and moment *)
SubStep(m, s, cmd, dt, ext, nf, nm) ==
  LET ma == MotorAcc(m, s.mw, cmd)
      T  == NetTorque(m, s, ma, nm)
      dw == MVec(m.jinv, T)
      F  == NetForce(m, s, ext, nf)
      a  == VScale(F1 (/) m.par.mass, F)
  IN [p  |-> VAdd(s.p, VScale(dt, s.v)),
      v  |-> VAdd(s.v, VScale(dt, a)),
      q  |-> QStep(s.q, s.w, dt),
      w  |-> VAdd(s.w, VScale(dt, dw)),
      a |-> a, dw |-> dw, F |-> F, T |-> T,
      ma |-> ma, mw |-> MotorStep(m, s.mw, ma, dt)]

SubSteps(m, s, cmd, dt, ext, nf, nm, k) ==
  FoldLeft(LAMBDA t, i : SubStep(m, t, cmd, dt, ext, nf, nm), s, [i \in 1..k |-> i])

(* a step of any positive duration: equal substeps of at most 10 ms *)
NumSub(dt) == IF FLe(dt, MaxSub) THEN 1 ELSE FCeil(dt (/) MaxSub)
Step(m, s, cmd, dt, ext, nf, nm) ==
  LET k == NumSub(dt) IN SubSteps(m, s, cmd, dt (/) FInt(k), ext, nf, nm, k)

-----------------------------------------------------------------------------
UnitQ(q, rel)  == FLe(FAbs(VNorm(q) (-) F1), rel)
StateFin(s)    == /\ VFin(s.p) /\ VFin(s.q) /\ VFin(s.v) /\ VFin(s.w) /\ VFin(s.a)
                  /\ VFin(s.dw) /\ VFin(s.F) /\ VFin(s.T) /\ VFin(s.mw) /\ VFin(s.ma)
MotorsInRange(m, mw) == \A i \in 1..Len(mw) : FLe(m.mn[i], mw[i]) /\ FLe(mw[i], m.mx[i])
================================================================================
