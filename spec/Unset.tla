--------------------------------- MODULE Unset ---------------------------------
(***************************************************************************)
(* What leaving a parameter, a state or an argument unset means: the       *)
(* neutral value of its kind.  A record given by a caller holds only the   *)
(* fields that were set; Fill adds the others.                             *)
(***************************************************************************)
EXTENDS Sim

Fill(p, d) == IF DOMAIN d \subseteq DOMAIN p THEN p
              ELSE [x \in DOMAIN p \cup DOMAIN d |-> IF x \in DOMAIN p THEN p[x] ELSE d[x]]
Nothing    == [none |-> TRUE]
Part(p, x) == IF x \in DOMAIN p THEN p[x] ELSE Nothing
Ones(n)    == [i \in 1..n |-> F1]
Zero33     == <<Zero3, Zero3, Zero3>>
Unit33     == <<<<F1, F0, F0>>, <<F0, F1, F0>>, <<F0, F0, F1>>>>
Identity   == <<F1, F0, F0, F0>>
Earth      == <<F0, F0, FRat(-981, 100)>>

(* a controller without gains, without windup limit, without filter, without limits *)
FillPid(n, p) ==
  Fill(p, [kp |-> VZero(n), ki |-> VZero(n), kd |-> VZero(n), aw |-> VZero(n), al |-> Ones(n),
           ri |-> FALSE, prop |-> FALSE, up |-> VZero(n), lo |-> VZero(n)])
(* a perfect sensor along the body axes *)
FillImu(p) == Fill(p, [gv |-> F0, av |-> F0, gs |-> F0, as |-> F0, q |-> Identity])
(* no filter, world axes *)
FillOdo(p) == Fill(p, [al |-> F1, q0 |-> Identity])
(* a rotor at the centre pointing up; vacuum, earth gravity, no noise *)
FillRotor(r) == Fill(r, [dir |-> 1, pos |-> Zero3, rot |-> Unit33])
FillModel(p) ==
  LET q == Fill(p, [cd |-> F0, aero |-> Zero33, g |-> Earth, sF |-> F0, sM |-> F0])
  IN [q EXCEPT !.motors = TLCEval([i \in 1..Len(q.motors) |-> FillRotor(q.motors[i])])]
(* at rest at the origin, level, motors off *)
FillState(n, s) ==
  Fill(s, [p |-> Zero3, q |-> Identity, v |-> Zero3, w |-> Zero3, a |-> Zero3, dw |-> Zero3,
           F |-> Zero3, T |-> Zero3, mw |-> VZero(n), ma |-> VZero(n)])
TakeState(s) == [p |-> s.p, q |-> s.q, v |-> s.v, w |-> s.w, a |-> s.a, dw |-> s.dw,
                 F |-> s.F, T |-> s.T, mw |-> s.mw, ma |-> s.ma]
FillDyn(n, p) == [model |-> FillModel(p.model), st |-> TakeState(FillState(n, Part(p, "st")))]
(* a controller that knows nothing of the vehicle but gravity *)
FillAcro(p)    == Fill(p, [m |-> F0, kp |-> Zero33, g |-> Earth])
FillIndi(n, p) ==
  LET q == Fill(p, [J |-> Zero33, minv |-> [i \in 1..n |-> VZero(6)]])
  IN [J |-> q.J, minv |-> q.minv, pid |-> FillPid(3, Part(p, "pid"))]
FillCtl(n, p) ==
  [acro |-> FillAcro(Part(p, "acro")), indi |-> FillIndi(n, Part(p, "indi")), pos |-> FillPid(3, Part(p, "pos")),
   tra |-> FillPid(3, Part(p, "tra")), vel |-> FillPid(3, Part(p, "vel"))]
FillSim(n, p) ==
  [dyn |-> FillDyn(n, p.dyn), ctl |-> FillCtl(n, Part(p, "ctl")), imu |-> FillImu(Part(p, "imu")), odo |-> FillOdo(Part(p, "odo"))]

(* parameters of an object of kind k *)
FillNew(k, n, p) ==
  CASE k = "pid" -> FillPid(n, p) [] k = "imu" -> FillImu(p) [] k = "odo" -> FillOdo(p)
    [] k = "model" -> [model |-> FillModel(p.model)] [] k = "dyn" -> FillDyn(n, p)
    [] k = "ctl" -> FillCtl(n, p) [] k = "sim" -> FillSim(n, p)
(* arguments of a call *)
FillCall(k, n, op, a) ==
  LET P(x) == [a EXCEPT !.p = x]  p == Part(a, "p") IN
  CASE op = "upd"  -> P(FillPid(n, p))
    [] op \in {"mupd", "setmodel", "setmodelp"} -> P(FillModel(p))
    [] op \in {"setst", "setstp"} -> [a EXCEPT !.st = TakeState(FillState(n, a.st))]
    [] op = "pdyn" -> P(FillDyn(n, p))   [] op \in {"pctl", "uall"} -> P(FillCtl(n, p))
    [] op = "pimu" -> P(FillImu(p))      [] op = "podo" -> P(FillOdo(p))
    [] op = "uacro" -> P(FillAcro(p))    [] op = "uindi" -> P(FillIndi(n, p))
    [] op \in {"upos", "utra", "uvel"} -> P(FillPid(3, p))
    [] op = "step" -> Fill(a, [ext |-> Zero3, noise |-> TRUE])      \* no external force, noise on
    [] op = "sacro" -> Fill(a, [g |-> Earth])
    [] op \in {"slim", "lim"} -> Fill(a, [b |-> FALSE])             \* per axis
    [] OTHER -> a
================================================================================
