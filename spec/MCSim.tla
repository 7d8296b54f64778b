--------------------------------- MODULE MCSim ---------------------------------
(***************************************************************************)
(* Model checking of the simulator's specification, and the walks that     *)
(* drive the real simulator through every situation found.                 *)
(*                                                                         *)
(* A few vehicles (JSON file named by PAR) are driven by a fixed alphabet  *)
(* of commands and updates.  TLC explores breadth first; two states are    *)
(* the same situation when they agree on Situation.  Every transition is   *)
(* checked against the properties in StepOk, which state them over pairs   *)
(* of states rather than by the definitions of Sim.tla, and is printed as  *)
(* a walk (indices into Alphabet) to be executed by the real code and      *)
(* validated by Trace.tla.                                                 *)
(***************************************************************************)
EXTENDS Sim, Json, IOUtils, TLC, FiniteSets

Vehicles == ndJsonDeserialize(IOEnv.PAR)
Depth    == atoi(IOEnv.DEPTH)
Emit     == IOEnv.EMIT = "1"
Rel      == FRat(1, 1000000000)

VARIABLES v, s, h
vars == <<v, s, h>>

-----------------------------------------------------------------------------
(* the alphabet *)
C(op, a) == [op |-> op, a |-> a]
none == [x |-> 0]
T3(a, b, c) == <<FRat(a, 10), FRat(b, 10), FRat(c, 10)>>
Alphabet == <<
  C("arm", none), C("disarm", none),
  C("mode", [m |-> HOVER, y |-> ANGLE]), C("mode", [m |-> HOVER, y |-> RATE]),
  C("mode", [m |-> MOTOR_W, y |-> ANGLE]), C("mode", [m |-> MOTOR_W, y |-> RATE]),
  C("mode", [m |-> ACRO, y |-> ANGLE]), C("mode", [m |-> ACRO, y |-> RATE]),
  C("mode", [m |-> TRAJECTORY, y |-> ANGLE]), C("mode", [m |-> TRAJECTORY, y |-> RATE]),
  C("mode", [m |-> VELOCITY, y |-> ANGLE]), C("mode", [m |-> VELOCITY, y |-> RATE]),
  C("mode", [m |-> POSITION, y |-> ANGLE]), C("mode", [m |-> POSITION, y |-> RATE]),
  C("rmw", [v |-> <<FInt(700), FInt(650), FInt(720), FInt(20)>>]),
  C("racro", [t |-> FRat(123, 10), w |-> T3(3, -8, 5)]),
  C("rtraj", [p |-> T3(12, -7, 31), v |-> T3(4, 9, -6), a |-> T3(-5, 8, 11)]),
  C("rvel", [v |-> T3(-9, 6, 14)]), C("rpos", [v |-> T3(21, 17, -13)]),
  C("ryaw", [v |-> FRat(13, 10)]), C("ryr", [v |-> FRat(-7, 10)]),
  C("floor", [h |-> FRat(3, 10)]), C("floor0", none), C("nofloor", none),
  C("uc", [dt |-> FRat(1, 100)]), C("ud", [dt |-> FRat(1, 100)]), C("ud", [dt |-> FRat(1, 4)]), C("ud", [dt |-> F0]),
  C("ui", [dt |-> FRat(1, 100)]), C("uo", [dt |-> FRat(1, 100)]) >>

Z12 == VZero(12)
(* whether the projected thrust is negative is part of the law *)
Neg(x, dt) == HasAcc(x) /\ ThrustNegative(QMat(x.st.q), ThrustVec(x.ctl, AccOf(x, dt)))
Do(x, c) ==
  LET a == c.a IN
  CASE c.op = "arm" -> Arm(x)
    [] c.op = "disarm" -> Disarm(x)
    [] c.op = "mode" -> SetMode(x, a.m, a.y)
    [] c.op = "rmw" -> RefMotors(x, a.v)
    [] c.op = "racro" -> RefAcro(x, a.t, a.w)
    [] c.op = "rtraj" -> RefTraj(x, a.p, a.v, a.a)
    [] c.op = "rvel" -> RefVel(x, a.v)
    [] c.op = "rpos" -> RefPos(x, a.v)
    [] c.op = "ryaw" -> RefYaw(x, a.v)
    [] c.op = "ryr" -> RefYawRate(x, a.v)
    [] c.op = "floor" -> EnableFloor(x, a.h)
    [] c.op = "floor0" -> EnableFloor(x, F0)
    [] c.op = "nofloor" -> DisableFloor(x)
    [] c.op = "uc" -> UpdateController(x, a.dt, Neg(AimYaw(x), a.dt))
    [] c.op = "ud" -> IF FLe(a.dt, F0) THEN x ELSE UpdateDynamics(x, a.dt, Zero3, Zero3)
    [] c.op = "ui" -> UpdateImu(x, a.dt, Z12)
    [] c.op = "uo" -> UpdateOdo(x, a.dt)

-----------------------------------------------------------------------------
(* the properties, over a transition x -> y by command c *)
Only(x, y, fs) == \A f \in DOMAIN x \ fs : x[f] = y[f]
OnlyR(x, y, fs) == \A f \in DOMAIN x.r \ fs : x.r[f] = y.r[f]
RefsOf(mode) == CASE mode = MOTOR_W -> {"mw"} [] mode = ACRO -> {"thr", "rat"} [] mode = TRAJECTORY -> {"pos", "vel", "acc", "yaw"}
                  [] mode = VELOCITY -> {"vel", "yaw"} [] OTHER -> {"pos", "yaw"}
(* the same references except that those the mode does not use are disturbed *)
Disturb(x) ==
  LET keep == RefsOf(x.mode) \cup (IF x.ym = RATE THEN {"yr"} ELSE {})
      d(f, val) == IF f \in keep THEN x.r[f] ELSE val
  IN [x EXCEPT !.r = [mw |-> d("mw", VScale(F2, VOnes(x.n))), thr |-> d("thr", F2), rat |-> d("rat", T3(1, 2, 3)),
                      pos |-> d("pos", T3(4, 5, 6)), vel |-> d("vel", T3(7, 8, 9)), acc |-> d("acc", T3(3, 2, 1)),
                      yaw |-> d("yaw", F2), yr |-> d("yr", F2)]]
P01(x, c, y) == /\ ~y.armed => VIsZero(y.act)
                /\ (~VIsZero(y.act) /\ y.act # x.act) => c.op = "uc" /\ x.armed
P02(x, c, y) == (c.op = "uc" /\ x.armed) =>
                  /\ Do(Disturb(x), c).act = y.act
                  /\ x.mode = HOVER => Do([x EXCEPT !.mode = POSITION], c).act = y.act
                  /\ x.mode = MOTOR_W => y.act = x.r.mw /\ y.ctl = x.ctl
                  /\ Only(x, y, {"ctl", "act", "r"}) /\ OnlyR(x, y, {"yaw"})
P03(x, c, y) == c.op = "mode" =>
                  IF x.mode = c.a.m /\ x.ym = c.a.y THEN x = y
                  ELSE /\ y.mode = c.a.m /\ y.ym = c.a.y /\ y.r.pos = x.st.p /\ NearAngle(y.r.yaw, Yaw(x.st.q), Rel)
                       /\ VIsZero(y.r.vel) /\ VIsZero(y.r.acc) /\ VIsZero(y.r.rat) /\ FEq(y.r.thr, F0)
                       /\ Only(x, y, {"mode", "ym", "r"}) /\ OnlyR(x, y, {"pos", "yaw", "vel", "acc", "rat", "thr"})
Writes(op) == CASE op = "rmw" -> {"mw"} [] op = "racro" -> {"thr", "rat"} [] op = "rtraj" -> {"pos", "vel", "acc"} [] op = "rvel" -> {"vel"}
                [] op = "rpos" -> {"pos"} [] op = "ryaw" -> {"yaw"} [] op = "ryr" -> {"yr"} [] OTHER -> {}
P04(x, c, y) == /\ Writes(c.op) # {} => Only(x, y, {"r"}) /\ OnlyR(x, y, Writes(c.op))
                /\ c.op = "arm" => Only(x, y, {"armed", "r"}) /\ OnlyR(x, y, {"thr", "rat", "pos"}) /\ y.armed
                                   /\ y.r.pos = <<x.r.pos[1], x.r.pos[2], x.fh>> /\ Near(y.r.thr, FRat(981, 100), Rel) /\ VIsZero(y.r.rat)
                /\ c.op = "disarm" => Only(x, y, {"armed", "act"})
                /\ c.op \in {"floor", "floor0", "nofloor"} => Only(x, y, {"fe", "fh", "ext"}) /\ VIsZero(y.ext)
P05(x, c, y) == c.op = "uc" =>
                  IF x.armed /\ x.ym = RATE
                  THEN LET k == x.ctl.acro.kp[3][3]
                       IN NearAngle(y.r.yaw, Yaw(x.st.q) (+) (IF FEq(k, F0) THEN F0 ELSE x.r.yr (/) k), Rel)
                  ELSE y.r.yaw = x.r.yaw
P06(x, c, y) == c.op = "ud" =>
                  /\ (x.fe /\ ~FLe(c.a.dt, F0)) => FLe(x.fh, y.st.p[3])
                  /\ ~x.fe => Do([x EXCEPT !.fh = x.fh (+) FInt(5)], c).st = y.st
P07(x, c, y) == (c.op = "ud" /\ ~FLe(c.a.dt, F0)) =>
                  LET z == Do(DisableFloor(x), c)
                  IN IF y.fc
                     THEN /\ y.st.p[3] = x.fh /\ VIsZero(y.st.v) /\ VIsZero(y.st.w) /\ VIsZero(y.st.a) /\ VIsZero(y.st.dw)
                          /\ ~BelowFloor(x) => \A f \in {"q", "F", "T", "mw", "ma"} : y.st[f] = z.st[f]
                          /\ VIsZero(y.imu.gy) /\ VIsZero(y.imu.ac) /\ VIsZero(y.imu.gb) /\ VIsZero(y.imu.ab)
                          /\ y.odo.q = y.st.q /\ VIsZero(y.odo.p) /\ VIsZero(y.odo.v) /\ VIsZero(y.odo.a) /\ VIsZero(y.odo.w)
                     ELSE /\ ~BelowFloor(x) => y.st = z.st
                          /\ y.imu = x.imu /\ y.odo = x.odo
P10(x, c, y) == c.op = "ud" =>
                  IF FLe(c.a.dt, F0) THEN x = y
                  ELSE LET k == NumSub(c.a.dt)           \* as many updates of the k-th part
                           RECURSIVE Rep(_, _)
                           Rep(u, i) == IF i = 0 THEN u ELSE Rep(UpdateDynamics(u, c.a.dt (/) FInt(k), Zero3, Zero3), i - 1)
                       IN (k > 1 /\ ~x.fe) => \A f \in DOMAIN y.st : VNear(Rep(x, k).st[f], y.st[f], FRat(1, 100000))
P12(x, c, y) == Healthy(y, Rel)
P28(x, c, y) == c.op \in {"ui", "uo"} => Only(x, y, {"imu", "odo"})
StepOk(x, c, y) ==
  /\ Assert(P01(x, c, y), <<"C01", h, c>>) /\ Assert(P02(x, c, y), <<"C02", h, c>>) /\ Assert(P03(x, c, y), <<"C03", h, c>>)
  /\ Assert(P04(x, c, y), <<"C04", h, c>>) /\ Assert(P05(x, c, y), <<"C05", h, c>>) /\ Assert(P06(x, c, y), <<"C06", h, c>>)
  /\ Assert(P07(x, c, y), <<"C07", h, c>>) /\ Assert(P10(x, c, y), <<"C10", h, c>>) /\ Assert(P12(x, c, y), <<"C12", h, c>>)
  /\ Assert(P28(x, c, y), <<"C28", h, c>>)

-----------------------------------------------------------------------------
(* what tells situations apart *)
Alt3(x) == IF FLt(x.st.p[3], x.fh) THEN -1 ELSE IF FEq(x.st.p[3], x.fh) THEN 0 ELSE 1
Situation(x) == <<x.armed, x.mode, x.ym, x.fe, x.fc, Alt3(x), VIsZero(x.act), VIsZero(x.st.mw),
                  IF IOEnv.FINE = "1" THEN <<x.ctl.rp.first, x.ctl.pp.first, x.ctl.vp.first, x.ctl.tp.first, VIsZero(x.imu.ac), VIsZero(x.odo.p)>> ELSE <<>> >>

Init == /\ v \in 1..Len(Vehicles)
        /\ s = SimNew(4, Rel, Vehicles[v], Zero3, Zero3)
        /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ v' = v
        /\ \E i \in 1..Len(Alphabet) :
             /\ s' = TLCEval(Do(s, Alphabet[i]))
             /\ h' = Append(h, i)
             /\ StepOk(s, Alphabet[i], s')
             /\ (Emit => PrintT(<<"W", v, h'>>))
Spec == Init /\ [][Next]_vars
View == <<v, Situation(s)>>
ASSUME Emit => PrintT(<<"ALPHABET", ToJson(Alphabet)>>)
================================================================================
