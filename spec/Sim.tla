---------------------------------- MODULE Sim ----------------------------------
(***************************************************************************)
(* The multirotor simulator: one record per vehicle, one operator per      *)
(* public operation.                                                       *)
(*   m st      model and vehicle state        nf nm   last process noise   *)
(*   ctl       controllers                    imu odo sensors              *)
(*   armed fe fh   armed; floor enabled, floor height                      *)
(*   fc        the last dynamics update ended in floor contact             *)
(*   r         references [mw, thr, rat, pos, vel, acc, yaw, yr]           *)
(*   act ext   motor command; pending external force                       *)
(*   mode ym   control mode and yaw mode                                   *)
(***************************************************************************)
EXTENDS Dyn, Ctl, Imu

HOVER == 0  MOTOR_W == 1  ACRO == 2  TRAJECTORY == 3  VELOCITY == 4  POSITION == 5
ANGLE == 0  RATE == 1
Modes == 0..5
YawModes == 0..1

RefsZero(n) == [mw |-> VZero(n), thr |-> F0, rat |-> Zero3, pos |-> Zero3, vel |-> Zero3,
                acc |-> Zero3, yaw |-> F0, yr |-> F0]

SimNew(n, eps, par, gb, ab) ==
  [n |-> n, m |-> Derive(par.dyn.model), st |-> par.dyn.st, nf |-> Zero3, nm |-> Zero3,
   ctl |-> CtlNew(n, eps, par.ctl), imu |-> ImuStart(par.imu, gb, ab),
   odo |-> OdoNew(par.odo.al, par.odo.q0),
   armed |-> FALSE, fe |-> FALSE, fh |-> F0, fc |-> FALSE,
   r |-> RefsZero(n), act |-> VZero(n), ext |-> Zero3, mode |-> MOTOR_W, ym |-> ANGLE]

(* ---- commands ---- *)
Arm(s)    == [s EXCEPT !.armed = TRUE, !.r.thr = FRat(981, 100), !.r.rat = Zero3,
                       !.r.pos = <<s.r.pos[1], s.r.pos[2], s.fh>>]
Disarm(s) == [s EXCEPT !.armed = FALSE, !.act = VZero(s.n)]
EnableFloor(s, h) == [s EXCEPT !.fe = TRUE, !.fh = h, !.ext = Zero3]
DisableFloor(s)   == [s EXCEPT !.fe = FALSE, !.ext = Zero3]
SetMode(s, mode, ym) ==
  IF s.mode = mode /\ s.ym = ym THEN s
  ELSE [s EXCEPT !.mode = mode, !.ym = ym, !.r.pos = s.st.p, !.r.yaw = Yaw(s.st.q),
                 !.r.vel = Zero3, !.r.acc = Zero3, !.r.thr = F0, !.r.rat = Zero3]
RefMotors(s, w)     == [s EXCEPT !.r.mw = w]
RefAcro(s, t, w)    == [s EXCEPT !.r.thr = t, !.r.rat = w]
RefTraj(s, p, v, a) == [s EXCEPT !.r.pos = p, !.r.vel = v, !.r.acc = a]
RefVel(s, v)        == [s EXCEPT !.r.vel = v]
RefPos(s, p)        == [s EXCEPT !.r.pos = p]
RefYaw(s, y)        == [s EXCEPT !.r.yaw = y]
RefYawRate(s, y)    == [s EXCEPT !.r.yr = y]

(* ---- controller update ---- *)
AimYaw(s) == IF s.ym = RATE
             THEN [s EXCEPT !.r.yaw = YawFromRate(s.ctl, Yaw(s.st.q), s.r.yr)] ELSE s
(* desired acceleration of the mode, if it has one *)
HasAcc(s) == s.armed /\ s.mode \in {HOVER, TRAJECTORY, VELOCITY, POSITION}
AccOf(s, dt) ==
  CASE s.mode = TRAJECTORY -> AccOfTraj(s.ctl, s.st.p, s.st.v, s.r.pos, s.r.vel, s.r.acc, dt)
    [] s.mode = VELOCITY   -> AccOfVel(s.ctl, s.st.v, s.r.vel, dt)
    [] OTHER               -> AccOfPos(s.ctl, s.st.p, s.st.v, s.r.pos, dt)
(* the controller record after the mode's law ran; yaw is already aimed *)
Law(s, dt, neg) ==
  LET k == s.st
      R == QMat(k.q)
  IN CASE s.mode = ACRO -> Acro(s.ctl, k.w, s.r.thr, s.r.rat, dt)
       [] s.mode = TRAJECTORY -> Traj(s.ctl, k.p, k.v, R, k.w, s.r.pos, s.r.vel, s.r.acc, s.r.yaw, dt, neg)
       [] s.mode = VELOCITY -> Vel(s.ctl, k.v, R, k.w, s.r.vel, s.r.yaw, dt, neg)
       [] s.mode \in {POSITION, HOVER} -> Pos(s.ctl, k.p, R, k.v, k.w, s.r.pos, s.r.yaw, dt, neg)
       [] OTHER -> s.ctl
(* The signed square of the motor command (the command itself in motor mode). *)
SqrtSign(x) == IF FLt(x, F0) THEN FNeg(FSqrt(FNeg(x))) ELSE FSqrt(x)
VSqrtSign(a) == TLCEval([i \in 1..Len(a) |-> SqrtSign(a[i])])
UpdateController(s, dt, neg) ==
  IF ~s.armed THEN [s EXCEPT !.act = VZero(s.n)]
  ELSE LET t == AimYaw(s)
           c == Law(t, dt, neg)
       IN [t EXCEPT !.ctl = c, !.act = IF s.mode = MOTOR_W THEN s.r.mw ELSE VSqrtSign(c.sq)]

(* ---- dynamics update ---- *)
BelowFloor(s) == s.fe /\ FLt(s.st.p[3], s.fh)
Support(s)    == IF BelowFloor(s) THEN VNeg(Weight(s.m)) ELSE s.ext
(* vehicle state after the free motion; noise only if the last step had no contact *)
Moved(s, dt, nf, nm) == Step(s.m, s.st, s.act, dt, Support(s), nf, nm)
Lands(s, st)  == s.fe /\ FLt(st.p[3], s.fh)
LandTie(s, st, rel) == s.fe /\ FLe(FAbs(st.p[3] (-) s.fh), rel (\X) (F1 (+) VMaxAbs(st.p)))
Landed(s, st) == [st EXCEPT !.p = <<st.p[1], st.p[2], s.fh>>, !.v = Zero3, !.w = Zero3,
                            !.a = Zero3, !.dw = Zero3]
AfterMove(s, st, nf, nm, contact) ==
  LET t == [s EXCEPT !.st = st, !.nf = nf, !.nm = nm, !.ext = Zero3, !.fc = FALSE]
  IN IF contact
     THEN [t EXCEPT !.st = Landed(s, st), !.fc = TRUE, !.imu = ImuReset(s.imu),
                    !.odo = OdoReset(OdoSetOrientation(s.odo, st.q))]
     ELSE t
UpdateDynamics(s, dt, nf, nm) ==
  LET st == Moved(s, dt, nf, nm) IN AfterMove(s, st, nf, nm, Lands(s, st))

(* ---- sensors ---- *)
BodySpecificForce(s) == VScale(F1 (/) s.m.par.mass, QRot(QInv(s.st.q), s.st.F))
UpdateImu(s, dt, z)  == [s EXCEPT !.imu = ImuUpdate(s.imu, dt, BodySpecificForce(s), s.st.w, z)]
UpdateOdo(s, dt)     == [s EXCEPT !.odo = OdoUpdate(s.odo, s.imu.gy, s.imu.ac, dt)]

-----------------------------------------------------------------------------
(* state predicates of the properties, used on the model and on real runs *)
DisarmedIsZero(s)   == ~s.armed => VIsZero(s.act)
NotBelowFloor(s)    == s.fe => FLe(s.fh, s.st.p[3])      \* after a dynamics update
Healthy(s, rel)     == /\ UnitQ(s.st.q, rel) /\ UnitQ(s.odo.q, rel)
                       /\ StateFin(s.st) /\ VFin(s.act)
                       /\ VFin(s.odo.p) /\ VFin(s.odo.v) /\ VFin(s.odo.w) /\ VFin(s.odo.a)
================================================================================
