---------------------------------- MODULE Ctl ----------------------------------
(***************************************************************************)
(* The cascade of vehicle controllers.  A controller is the record         *)
(*   acro  [m, kp, g]        mass, attitude gain (3x3), gravity            *)
(*   indi  [J, minv]         inertia, mixer inverse (N x 6)                *)
(*   rp pp tp vp             PIDs of the rate, position, trajectory and    *)
(*                           velocity loops                                *)
(*   ar    rates last computed by the attitude law                         *)
(*   tq th                   torque and thrust vector last allocated       *)
(*   dpos dvel dacc dthr drat  desired values last used                    *)
(*   sq    squared (signed) motor command last computed                    *)
(***************************************************************************)
EXTENDS Pid

CtlNew(n, eps, par) ==
  [n |-> n, acro |-> par.acro, indi |-> [J |-> par.indi.J, minv |-> par.indi.minv],
   rp |-> PidNew(3, eps, par.indi.pid), pp |-> PidNew(3, eps, par.pos),
   tp |-> PidNew(3, eps, par.tra), vp |-> PidNew(3, eps, par.vel),
   ar |-> Zero3, tq |-> Zero3, th |-> Zero3,
   dpos |-> Zero3, dvel |-> Zero3, dacc |-> Zero3, dthr |-> F0, drat |-> Zero3,
   sq |-> VZero(n)]

CtlReset(c) == [c EXCEPT !.rp = PidReset(c.rp), !.pp = PidReset(c.pp),
                         !.tp = PidReset(c.tp), !.vp = PidReset(c.vp)]

CtlSetAcro(c, a) == [c EXCEPT !.acro = a]
CtlSetIndi(c, i) == [c EXCEPT !.indi = [J |-> i.J, minv |-> i.minv], !.rp = PidUpdate(c.rp, i.pid)]
CtlSetPos(c, p)  == [c EXCEPT !.pp = PidUpdate(c.pp, p)]
CtlSetTra(c, p)  == [c EXCEPT !.tp = PidUpdate(c.tp, p)]
CtlSetVel(c, p)  == [c EXCEPT !.vp = PidUpdate(c.vp, p)]
CtlSetAll(c, par) == CtlSetVel(CtlSetTra(CtlSetPos(CtlSetIndi(CtlSetAcro(c, par.acro), par.indi),
                                                   par.pos), par.tra), par.vel)

(* ---- acceleration and heading to thrust and body rates ---- *)
ThrustVec(c, acc) == VScale(c.acro.m, VSub(acc, c.acro.g))
(* attitude whose vertical axis is along T and whose heading is yaw; columns *)
DesiredAxes(T, yaw) ==
  LET xc == <<FCos(yaw), FSin(yaw), F0>>
      zb == VUnit(T)
      yb == VUnit(Cross(zb, xc))
      xb == VUnit(Cross(yb, zb))
  IN <<xb, yb, zb>>
RotationError(R, T, yaw) ==
  LET Rdt == DesiredAxes(T, yaw)          \* rows of R_des transposed
      E1  == MMul(Rdt, R)
      E   == [i \in 1..3 |-> VSub(E1[i], MT(E1)[i])]
  IN VScale(FHalf, <<E[3][2], E[1][3], E[2][1]>>)
AttitudeRates(c, R, T, yaw) == VNeg(MVec(c.acro.kp, RotationError(R, T, yaw)))
BodyThrust(R, T) == VDot(T, VUnit(<<R[1][3], R[2][3], R[3][3]>>))
(* a thrust this close to zero may be judged either side of it *)
ThrustTie(R, T, rel) == FLe(FAbs(BodyThrust(R, T)), rel (\X) (F1 (+) VMaxAbs(T)))
ThrustNegative(R, T) == FLt(BodyThrust(R, T), F0)

(* ---- entry points; neg says whether the projected thrust is negative ---- *)
(* body rates and thrust to motors *)
RunAcro(c, w, thr, rates, dt) ==
  LET rp == PidCompute(c.rp, dt, VSub(rates, w))
      tq == VAdd(MVec(c.indi.J, rp.out), Cross(rates, MVec(c.indi.J, rates)))
      sq == MVec(c.indi.minv, <<F0, F0, thr, tq[1], tq[2], tq[3]>>)
  IN [c EXCEPT !.rp = rp, !.tq = tq, !.th = <<F0, F0, thr>>, !.sq = sq]
Acro(c, w, thr, rates, dt) ==
  [RunAcro(c, w, thr, rates, dt) EXCEPT !.dthr = thr, !.drat = rates]
ToAcro(c, acc, R, yaw, neg) ==
  LET T == ThrustVec(c, acc)
      r == AttitudeRates(c, R, T, yaw)
  IN [ar |-> r, thr |-> IF neg THEN F0 ELSE BodyThrust(R, T), rat |-> IF neg THEN Zero3 ELSE r]
Accel(c, R, w, acc, yaw, dt, neg) ==
  LET x == ToAcro(c, acc, R, yaw, neg)
  IN [Acro(c, w, x.thr, x.rat, dt) EXCEPT !.dacc = acc, !.ar = x.ar]
TrajAcc(c, p, v, pd, vd, ad, dt) ==
  LET tp == PidComputeD(c.tp, dt, VSub(pd, p), VSub(vd, v))
  IN [pid |-> tp, acc |-> VAdd(tp.out, ad)]
Traj(c, p, v, R, w, pd, vd, ad, yaw, dt, neg) ==
  LET x == TrajAcc(c, p, v, pd, vd, ad, dt)
  IN Accel([c EXCEPT !.tp = x.pid, !.dpos = pd, !.dvel = vd], R, w, x.acc, yaw, dt, neg)
Vel(c, v, R, w, vd, yaw, dt, neg) ==
  LET vp == PidCompute(c.vp, dt, VSub(vd, v))
  IN Accel([c EXCEPT !.vp = vp, !.dvel = vd], R, w, vp.out, yaw, dt, neg)
Pos(c, p, R, v, w, pd, yaw, dt, neg) ==
  LET pp == PidCompute(c.pp, dt, VSub(pd, p))
  IN Vel([c EXCEPT !.pp = pp, !.dpos = pd], v, R, w, pp.out, yaw, dt, neg)

(* the acceleration each entry point will ask for (to locate thrust ties) *)
AccOfTraj(c, p, v, pd, vd, ad, dt) == TrajAcc(c, p, v, pd, vd, ad, dt).acc
AccOfVel(c, v, vd, dt)    == PidCompute(c.vp, dt, VSub(vd, v)).out
AccOfPos(c, p, v, pd, dt) == AccOfVel(c, v, PidCompute(c.pp, dt, VSub(pd, p)).out, dt)

(* yaw-rate command to yaw reference *)
YawFromRate(c, yaw, rate) ==
  LET k == c.acro.kp[3][3] IN IF FEq(k, F0) THEN yaw ELSE yaw (+) (rate (/) k)
================================================================================
