--------------------------------- MODULE Trace ---------------------------------
(***************************************************************************)
(* Trace validation: are the recorded executions of the real code          *)
(* behaviours of the specification?                                        *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds one trace per    *)
(* line: a JSON array of events.  An event is one public call on one       *)
(* object, with its arguments, exception, results and the observable       *)
(* state of the object after the call:                                     *)
(*    [o, op, a, x, alt, rt, s, fu]                                        *)
(* "R" events relate objects of the trace and make no call.                *)
(*                                                                         *)
(* Each step runs the specification's operator for the call, compares the  *)
(* outcome clause by clause, and adds to "bad" the pair <<property,        *)
(* clause>> of each clause that fails.  Visible fields then follow the     *)
(* implementation, hidden memory follows the specification.  A property    *)
(* holds on the traces iff NoViolation is an invariant.                    *)
(***************************************************************************)
EXTENDS Unset, Fun, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop   == IOEnv.PROP                    \* the property whose check this is

VARIABLES t,       \* trace number
          l,       \* events consumed
          obj,     \* objects of the trace: id -> record (see NewObj)
          bad,     \* failed clauses
          kn,      \* clauses that fail only in a known, recorded way
          cov      \* situations met (reported, not checked)
vars == <<t, l, obj, bad, kn, cov>>

-----------------------------------------------------------------------------
(* clauses *)
Cl(c, tags, what) == IF c THEN {} ELSE {<<g, what>> : g \in tags}
Cov(c, what)      == IF c THEN {what} ELSE {}
(* tolerance relative to the operands and to a given scale *)
NearS(a, b, rel, sc) ==
  \/ VNear(a, b, rel)
  \/ VFin(b) /\ VNear(VScale(F1 (/) (F1 (+) sc), a), VScale(F1 (/) (F1 (+) sc), b), rel)
NearM(A, B, rel) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VNear(A[i], B[i], rel)
SameM(A, B)      == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VSame(A[i], B[i])
Max3(x, y, z)    == FMax(x, FMax(y, z))
RelD == FRat(1, 1000000000)
RelF == FRat(1, 2000)
(* resolution of the precision, below which PID limits count as equal *)
EpsD == FRat(1, 1073741824) (\X) FRat(1, 4194304)     \* 2^-52
EpsF == FRat(1, 8388608)                              \* 2^-23

Drop(r, names) == [x \in DOMAIN r \ names |-> r[x]]
StripCtl(s) == [x \in DOMAIN s \ {"acro", "indi"} |->
                  IF x \in {"rp", "pp", "tp", "vp"} THEN Drop(s[x], {"par"}) ELSE s[x]]
StripMo(s)  == [nf |-> s.nf, nm |-> s.nm]
Strip(k, s) == CASE k = "pid"   -> Drop(s, {"par"})
                 [] k = "model" -> StripMo(s)
                 [] k = "dyn"   -> [s EXCEPT !.mo = StripMo(s.mo)]
                 [] k = "ctl"   -> StripCtl(s)
                 [] k = "sim"   -> [s EXCEPT !.mo = StripMo(s.mo), !.ctl = StripCtl(s.ctl)]
                 [] OTHER       -> s

-----------------------------------------------------------------------------
(* random samples: running statistics of standardised values *)
ZeroLike(z) == VZero(Len(z))
Shift(z, k) == SubSeq(z, k + 1, Len(z)) \o SubSeq(z, 1, k)
Shifts(z)   == 1..(Len(z) \div 2)
StatNew(n)  == [n |-> 0, s1 |-> VZero(n), s2 |-> VZero(n), lag |-> VZero(n),
                cr |-> [k \in 1..(n \div 2) |-> VZero(n)], prev |-> VZero(n)]
StatAdd(a, z) ==
  [n |-> a.n + 1, s1 |-> VAdd(a.s1, z), s2 |-> VAdd(a.s2, VMul(z, z)),
   lag |-> VAdd(a.lag, VMul(z, a.prev)),
   cr |-> TLCEval([k \in Shifts(z) |-> VAdd(a.cr[k], VMul(z, Shift(z, k)))]), prev |-> z]
(* six-sigma bounds on mean, variance, lag-1 and cross correlation *)
StatBad(a, tags) ==
  LET n == FInt(a.n)
      b == FInt(6) (\X) FSqrt(n)
      In(v, c, w) == \A i \in 1..Len(v) : FLe(FAbs(v[i] (-) c), w)
  IN  Cl(In(a.s1, F0, b), tags, "sample mean")
      \cup Cl(In(a.s2, n, FSqrt(F2) (\X) b), tags, "sample variance")
      \cup Cl(In(a.lag, F0, b), tags, "sample repeats over time")
      \cup Cl(\A k \in 1..Len(a.cr) : In(a.cr[k], F0, b), tags, "sample axes correlated")
Plausible(z) == \A i \in 1..Len(z) : FLe(FAbs(z[i]), FInt(8))

-----------------------------------------------------------------------------
(* object records *)
NewObj(e, s) ==
  [k |-> e.k, n |-> e.n, rel |-> IF e.f THEN RelF ELSE RelD, flt |-> e.f,
   ex |-> IF e.f \/ (e.k \in {"model", "dyn", "ctl", "sim"} /\ e.n # 4) THEN {"C29"} ELSE {},
   s |-> s, seen |-> Strip(e.k, e.s), full |-> e.s,
   z |-> <<>>, sta |-> StatNew(IF e.k = "imu" THEN 12 ELSE 6), stat |-> e.stat,
   upd |-> FALSE, dirty |-> {}, trk |-> [on |-> FALSE]]

(* what a step returns *)
Ret(s, b)          == [s |-> s, bad |-> b, kn |-> {}, cov |-> {}, z |-> <<>>, upd |-> FALSE]
RetC(s, b, c)      == [s |-> s, bad |-> b, kn |-> {}, cov |-> c, z |-> <<>>, upd |-> FALSE]

-----------------------------------------------------------------------------
(* PID *)
PidSee(s, ob) == [s EXCEPT !.e = ob.e, !.de = ob.de, !.P = ob.P, !.I = ob.I, !.D = ob.D, !.out = ob.out]
(* a call: x is the expected record.  The limit clause starts from the
   contributions the implementation reports. *)
RawOf(ob)   == VAdd(VAdd(ob.P, ob.I), ob.D)
ScaleOf(ob) == Max3(VMaxAbs(ob.P), VMaxAbs(ob.I), VMaxAbs(ob.D))
LimitedOf(x, ob) == IF x.sat THEN LimitVec(RawOf(ob), x.up, x.lo, x.prop) ELSE RawOf(ob)
PidCallBad(x, ob, rel, law, int, lim, d) ==
  Cl(VNear(x.e, ob.e, rel), law, "reported error")
  \cup Cl(d => VNear(x.de, ob.de, rel), law, "reported error rate")
  \cup Cl(VNear(x.P, ob.P, rel), law, "proportional contribution")
  \cup Cl(VNear(x.I, ob.I, rel), int, "integral contribution")
  \cup Cl(VNear(x.D, ob.D, rel), law, "derivative contribution")
  \cup Cl(NearS(LimitedOf(x, ob), ob.out, rel, ScaleOf(ob)), lim, "output")
  \cup Cl((x.sat /\ (x.prop => \A i \in 1..x.n : FLe(x.lo[i], F0) /\ FLe(F0, x.up[i])))
            => Within(ob.out, x.lo, x.up, rel), lim, "output outside its limits")
PidCallCov(s, x, ob, dt, e) ==
  Cov(s.first, "pid first call") \cup Cov(~s.first, "pid later call")
  \cup Cov(x.sat /\ ~x.prop /\ ~VNear(RawOf(ob), ob.out, x.eps), "pid limited per axis")
  \cup Cov(x.sat /\ x.prop /\ ~VNear(RawOf(ob), ob.out, x.eps), "pid limited proportionally")
  \cup Cov(\E i \in 1..x.n : ~FEq(x.aw[i], F0) /\ FEq(FAbs(x.acc[i]), x.aw[i]), "pid integral at its bound")
  \cup Cov(~s.first /\ s.ri /\ ~VSame(Restarted(s, e), s.acc), "pid integral restarted")
PidSet(s, op, a) ==
  CASE op = "reset" -> PidReset(s)
    [] op = "upd"   -> PidUpdate(s, a.p)
    [] op = "sg"    -> [s EXCEPT !.kp = a.kp, !.ki = a.ki, !.kd = a.kd]
    [] op = "skp"   -> [s EXCEPT !.kp = a.v]
    [] op = "ski"   -> [s EXCEPT !.ki = a.v]
    [] op = "skd"   -> [s EXCEPT !.kd = a.v]
    [] op = "saw"   -> [s EXCEPT !.aw = a.v]
    [] op = "sal"   -> [s EXCEPT !.al = a.v]
    [] op = "sri"   -> [s EXCEPT !.ri = a.b]
    [] op = "sprop" -> [s EXCEPT !.prop = a.b]
    [] op = "slim"  -> PidSetLimits(s, a.up, a.lo, a.b)
    [] op = "dlim"  -> PidDisableLimits(s)
PidSetOps == {"reset", "upd", "sg", "skp", "ski", "skd", "saw", "sal", "sri", "sprop", "slim", "dlim"}
(* parameters read back; limits only mean something while limiting is on *)
PidParBad(s, par) ==
  Cl(VSame(s.kp, par.kp) /\ VSame(s.ki, par.ki) /\ VSame(s.kd, par.kd), {"C27"}, "gains read back")
  \cup Cl(VSame(s.aw, par.aw), {"C27"}, "anti-windup read back")
  \cup Cl(VSame(s.al, par.al), {"C27"}, "filter constant read back")
  \cup Cl(s.ri = par.ri, {"C27"}, "integral reset flag read back")
  \cup Cl(s.sat = par.sat, {"C17", "C27"}, "limiting on or off")
  \cup Cl(s.prop = par.prop, {"C17", "C27"}, "proportional limiting read back")
  \cup Cl(s.sat => (VSame(s.up, par.up) /\ VSame(s.lo, par.lo)), {"C17", "C27"}, "limits read back")
(* the first call of a loop after a live parameter change also decides C27 *)
Loops == {"rp", "pp", "vp", "tp"}
DirtyT(d, x) == IF x \in d THEN {"C27"} ELSE {}
LawT == {"C16"}  IntT == {"C16", "C18"}  LimT == {"C17"}
PidEv(o, e) ==
  LET s == o.s  a == e.a  op == e.op  ob == e.s  rel == o.rel
      lim(x) == IF x.sat THEN LimT ELSE {"C16", "C17"}
      dy == DirtyT(o.dirty, "rp")
  IN CASE op = "c2" \/ op = "c3" ->
            LET x == IF op = "c2" THEN PidCompute(s, a.dt, a.e) ELSE PidComputeD(s, a.dt, a.e, a.de)
            IN RetC(PidSee(x, ob),
                    PidCallBad(x, ob, rel, LawT \cup dy, IntT \cup dy, lim(x) \cup dy, op = "c3")
                    \cup Cl(VSame(e.rt.v, ob.out), {"C16", "C17"}, "returned output"),
                    PidCallCov(s, x, ob, a.dt, a.e))
       [] op \in PidSetOps ->
            LET x == PidSet(s, op, a)
            IN Ret(PidSee(x, ob),
                   Cl(op = "reset" \/ Strip("pid", ob) = o.seen, {"C27"}, "a parameter change altered reported values"))
       [] op = "err"  -> Ret(s, Cl(VNear(VSub(a.r, a.s), e.rt.v, rel), {"C16"}, "error"))
       [] op = "err4" -> Ret(s, Cl(VNear(VSub(a.r, a.s), e.rt.v, rel) /\ VNear(VSub(a.rd, a.sd), e.rt.d, rel), {"C16"}, "error"))
       [] op = "lim"  -> Ret(s, Cl(VNear(LimitVec(a.x, a.up, a.lo, a.b), e.rt.v, rel), {"C17"}, "limited value"))

-----------------------------------------------------------------------------
(* inertial sensor *)
ImuT == {"C24"}
ImuSee(i, ob) == [i EXCEPT !.gb = ob.gb, !.ab = ob.ab, !.gy = ob.gy, !.ac = ob.ac]
(* f and w are the true specific force and rates in the body frame *)
ImuCall(i, dt, f, w, ob, rel, tags) ==
  LET z == ImuSample(i, dt, f, w, ob.gb, ob.ab, ob.gy, ob.ac)
      x == ImuUpdate(i, dt, f, w, z)
      r == rel (\X) FInt(10)
  IN [s |-> ImuSee(i, ob), z |-> z,
      bad |-> Cl(VNear(x.gb, ob.gb, r) /\ VNear(x.ab, ob.ab, r), ImuT, "bias walk")
              \cup Cl(VNear(x.gy, ob.gy, r), tags, "gyroscope")
              \cup Cl(VNear(x.ac, ob.ac, r), tags, "accelerometer")
              \cup Cl(Plausible(z), ImuT, "noise magnitude")]
ImuStill(i) == FEq(i.gv, F0) /\ FEq(i.av, F0) /\ FEq(i.gs, F0) /\ FEq(i.as, F0)
ImuNewBad(p, ob) ==
  Cl(Plausible(Explain(FSqrt(p.gv), ob.gb)) /\ Plausible(Explain(FSqrt(p.av), ob.ab))
     /\ (FEq(p.gv, F0) => VIsZero(ob.gb)) /\ (FEq(p.av, F0) => VIsZero(ob.ab)), ImuT, "initial bias")
  \cup Cl(VIsZero(ob.gy) /\ VIsZero(ob.ac), ImuT, "initial measurement")
ImuEv(i, op, a, ob, seen, rel) ==
  CASE op = "update" -> LET c == ImuCall(i, a.dt, a.f, a.w, ob, rel, ImuT)
                        IN IF FLe(a.dt, F0)
                           THEN RetC(i, Cl(ob = seen, ImuT, "non-positive step changed the sensor"), {"imu bad step"})
                           ELSE [Ret(c.s, c.bad) EXCEPT !.z = c.z]
    [] op = "reset"  -> LET x == ImuReset(i)
                        IN Ret(ImuSee(x, ob), Cl(VIsZero(ob.gb) /\ VIsZero(ob.ab) /\ VIsZero(ob.gy) /\ VIsZero(ob.ac), ImuT, "reset"))
    [] op = "seed"   -> Ret(i, Cl(ob = seen, ImuT, "seeding changed the sensor"))
    [] op = "var"    -> Ret([i EXCEPT !.gv = a.g, !.av = a.a],
                            Cl(FEq(ob.gv, a.g) /\ FEq(ob.av, a.a), {"C24", "C27"}, "variances read back"))
    [] op = "bauto"  -> Ret([i EXCEPT !.gs = a.g, !.as = a.a], Cl(ob = seen, ImuT, "bias parameters changed the sensor"))
    [] op = "bias"   -> Ret([i EXCEPT !.gs = a.x, !.as = a.y, !.gb = a.g, !.ab = a.a],
                            Cl(VSame(ob.gb, a.g) /\ VSame(ob.ab, a.a), {"C24", "C27"}, "bias read back"))
    [] op = "mount"  -> Ret([i EXCEPT !.q = a.q], Cl(ob = seen, ImuT, "mounting changed the sensor"))

(* inertial odometry *)
OdoSee(o, ob) == [o EXCEPT !.p = ob.p, !.q = ob.q, !.v = ob.v, !.w = ob.w, !.a = ob.a]
(* a normalised quaternion is unit to a few roundings *)
NormRel(rel) == IF FLt(rel, FRat(1, 100000)) THEN FInt(100) (\X) EpsD ELSE FInt(20) (\X) EpsF
OdoHealthy(ob, rel) ==
  Cl(UnitQ(ob.q, NormRel(rel)), {"C12"}, "odometry orientation norm")
  \cup Cl(VFin(ob.p) /\ VFin(ob.q) /\ VFin(ob.v) /\ VFin(ob.w) /\ VFin(ob.a), {"C12"}, "odometry not finite")
OdoCall(o, gy, ac, dt, ob, rel, tags) ==
  LET x == OdoUpdate(o, gy, ac, dt)
  IN [s |-> OdoSee(x, ob),
      bad |-> Cl(VNear(x.w, ob.w, rel), tags, "odometry rates")
              \cup Cl(VNear(x.a, ob.a, rel), tags, "odometry acceleration")
              \cup Cl(VNear(VAdd(o.v, VScale(dt, ob.a)), ob.v, rel), tags, "odometry velocity")
              \cup Cl(VNear(VAdd(o.p, VScale(dt, ob.v)), ob.p, rel), tags, "odometry position")
              \cup Cl(VNear(QStep(o.q, ob.w, dt), ob.q, rel), tags, "odometry orientation")
              \cup OdoHealthy(ob, rel)]
OdoIs(x, ob, rel) == /\ VNear(x.p, ob.p, rel) /\ VNear(x.q, ob.q, rel) /\ VNear(x.v, ob.v, rel)
                     /\ VNear(x.w, ob.w, rel) /\ VNear(x.a, ob.a, rel)
(* a logged row: sections of the row against values; angles on the circle *)
EulerBad(q, row, rel) ==
  LET s == FAbs(SinPitch(q)) IN
  ~( /\ Near(Pitch(q), row[2], rel (\X) FInt(100000))
     /\ FLe(F1 (-) FRat(1, 100000), s) \/ ( /\ NearAngle(Roll(q), row[1], rel (\X) FInt(1000))
                                            /\ NearAngle(Yaw(q), row[3], rel (\X) FInt(1000)) ) )
OdoVals(ob, r, rel, tag, w) ==
  Cl(VNear(ob.p, SubSeq(r, 1, 3), rel), {tag}, w \o " position")
  \cup Cl(~EulerBad(ob.q, SubSeq(r, 4, 6), rel), {tag}, w \o " angles")
  \cup Cl(VNear(ob.v, SubSeq(r, 7, 9), rel), {tag}, w \o " velocity")
  \cup Cl(VNear(ob.w, SubSeq(r, 10, 12), rel), {tag}, w \o " rates")
  \cup Cl(VNear(ob.a, SubSeq(r, 13, 15), rel), {tag}, w \o " acceleration")
StateVals(ob, n, r, rel, tag, w) ==
  OdoVals(ob, r, rel, tag, w)
  \cup Cl(VNear(ob.dw, SubSeq(r, 16, 18), rel), {tag}, w \o " angular acceleration")
  \cup Cl(VNear(ob.F, SubSeq(r, 19, 21), rel), {tag}, w \o " force")
  \cup Cl(VNear(ob.T, SubSeq(r, 22, 24), rel), {tag}, w \o " torque")
  \cup Cl(VNear(ob.mw, SubSeq(r, 25, 24 + n), rel), {tag}, w \o " motor speeds")
  \cup Cl(VNear(ob.ma, SubSeq(r, 25 + n, 24 + 2 * n), rel), {tag}, w \o " motor accelerations")
OdoRow(ob, rt, rel) ==
  IF ~rt.ok \/ Len(rt.row) # 15 THEN {<<"C30", "odometry row shape">>}
  ELSE OdoVals(ob, rt.row, rel, "C30", "odometry row")
StateRow(ob, n, rt, rel) ==
  IF ~rt.ok \/ Len(rt.row) # 24 + 2 * n THEN {<<"C30", "state row shape">>}
  ELSE StateVals(ob, n, rt.row, rel, "C30", "row")
(* the labelled printouts: the same values, each under its name *)
Axes3(w) == <<w \o "_x", w \o "_y", w \o "_z">>
OdoLabels == Axes3("position") \o <<"orientation_roll", "orientation_pitch", "orientation_yaw">>
             \o Axes3("linear_velocity") \o Axes3("angular_velocity") \o Axes3("linear_acceleration")
StateLabels(n) == OdoLabels \o Axes3("angular_acceleration") \o Axes3("force") \o Axes3("torque")
                  \o [i \in 1..n |-> "motor_" \o ToString(i - 1) \o "_angular_velocity"]
                  \o [i \in 1..n |-> "motor_" \o ToString(i - 1) \o "_angular_acceleration"]
OdoPrint(ob, rt, rel) ==
  IF ~rt.ok \/ rt.lab # OdoLabels THEN {<<"C34", "odometry printout labels">>}
  ELSE OdoVals(ob, rt.row, rel, "C34", "odometry printout")
StatePrint(ob, n, rt, rel) ==
  IF ~rt.ok \/ rt.lab # StateLabels(n) THEN {<<"C34", "state printout labels">>}
  ELSE StateVals(ob, n, rt.row, rel, "C34", "printout")
OdoT == {"C25"}
OdoEv(o, op, a, ob, seen, rt, rel) ==
  CASE op = "update" -> LET c == OdoCall(o, a.g, a.a, a.dt, ob, rel, OdoT) IN Ret(c.s, c.bad)
    [] op = "reset"  -> LET x == OdoReset(o) IN Ret(OdoSee(x, ob), Cl(OdoIs(x, ob, rel), OdoT, "odometry reset"))
    [] op = "orient" -> LET x == OdoSetOrientation(o, a.q)
                        IN Ret(OdoSee(x, ob), Cl(VSame(ob.q, a.q), OdoT, "initial orientation")
                               \cup Cl(Drop(ob, {"q"}) = Drop(seen, {"q"}), OdoT, "initial orientation changed the motion"))
    [] op = "csv"    -> Ret(o, OdoRow(ob, rt, rel))
    [] op = "print"  -> Ret(o, OdoPrint(ob, rt, rel))

-----------------------------------------------------------------------------
(* model *)
(* column c of rotor r against the expected column, relative to the rotor's size *)
ColNear(x, y, sc, rel) == \A i \in 1..3 : FLe(FAbs(x[i] (-) y[i]), rel (\X) sc)
RotorSize(r) == (r.kt (\X) (F1 (+) VMaxAbs(r.pos))) (+) r.kq
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
MixersNear(ms, mf, mt, mi, rel) ==
  /\ Len(mf) = 3 /\ Len(mt) = 3 /\ Len(mi) = 3 /\ Len(mf[1]) = Len(ms)
  /\ \A j \in 1..Len(ms) :
        /\ ColNear(RForce(ms[j]), Col(mf, j), RotorSize(ms[j]), rel)
        /\ ColNear(RTorque(ms[j]), Col(mt, j), RotorSize(ms[j]), rel)
        /\ ColNear(RInertia(ms[j]), Col(mi, j), ms[j].J, rel)
RotorSame(x, y) == /\ x.dir = y.dir /\ FEq(x.kt, y.kt) /\ FEq(x.kq, y.kq) /\ VSame(x.pos, y.pos)
                   /\ SameM(x.rot, y.rot) /\ FEq(x.mn, y.mn) /\ FEq(x.mx, y.mx)
                   /\ FEq(x.tau, y.tau) /\ FEq(x.J, y.J)
ParSame(p, q) == /\ Len(p.motors) = Len(q.motors)
                 /\ \A j \in 1..Len(p.motors) : RotorSame(p.motors[j], q.motors[j])
                 /\ FEq(p.mass, q.mass) /\ SameM(p.J, q.J) /\ FEq(p.cd, q.cd) /\ SameM(p.aero, q.aero)
                 /\ VSame(p.g, q.g) /\ FEq(p.sF, q.sF) /\ FEq(p.sM, q.sM)
(* full observation of a model *)
ModelFullBad(m, ob, n, rel, tags) ==
  Cl(ParSame(m.par, ob.par), tags, "model parameters")
  \cup Cl(MixersNear(m.par.motors, ob.mf, ob.mt, ob.mi, rel), tags \cup {"C13"}, "mixers")
  \cup Cl(/\ Len(ob.m6) = 6 /\ VSame(ob.m6[1], ob.mf[1]) /\ VSame(ob.m6[2], ob.mf[2]) /\ VSame(ob.m6[3], ob.mf[3])
          /\ VSame(ob.m6[4], ob.mt[1]) /\ VSame(ob.m6[5], ob.mt[2]) /\ VSame(ob.m6[6], ob.mt[3])
          /\ VSame(ob.fv, ob.mf[3]), {"C13", "C14"}, "combined mixer")
  \cup Cl(ob.nr = n, {"C14"}, "number of rotors")
NoiseSample(m, dt, nf, nm) ==
  Explain(FSqrt(m.par.sF (/) dt), nf) \o Explain(FSqrt(m.par.sM (/) dt), nm)
(* on: the step draws noise *)
NoiseBad(m, dt, nf, nm, pnf, pnm, on) ==
  LET zf == ~on \/ FEq(m.par.sF, F0)  zm == ~on \/ FEq(m.par.sM, F0)
  IN Cl(zf => VIsZero(nf), {"C15"}, "force noise while off")
     \cup Cl(zm => VIsZero(nm), {"C15"}, "moment noise while off")
     \cup Cl(~zf => ~\E i \in 1..3 : FEq(nf[i], F0) \/ FEq(nf[i], pnf[i]), {"C15"}, "force noise not drawn anew")
     \cup Cl(~zm => ~\E i \in 1..3 : FEq(nm[i], F0) \/ FEq(nm[i], pnm[i]), {"C15"}, "moment noise not drawn anew")
     \cup Cl(on => Plausible(NoiseSample(m, dt, nf, nm)), {"C15"}, "noise magnitude")
Identity3 == <<<<F1, F0, F0>>, <<F0, F1, F0>>, <<F0, F0, F1>>>>
PresetBad(k, a, ms, rel) ==
  LET pos == CASE k = "x" -> LayoutX(a[3], a[4]) [] k = "plus" -> LayoutPlus(a[3], a[4]) [] OTHER -> LayoutHexa(a[3])
      b   == IF k = "hexa" THEN 3 ELSE 4
  IN Cl(/\ Len(ms) = Len(pos)
        /\ \A i \in 1..Len(ms) : /\ VNear(ms[i].pos, pos[i], rel) /\ ms[i].dir = Alt(i)
                                 /\ FEq(ms[i].kt, a[1]) /\ FEq(ms[i].kq, a[2]) /\ SameM(ms[i].rot, Identity3)
                                 /\ FEq(ms[i].mn, a[b+1]) /\ FEq(ms[i].mx, a[b+2])
                                 /\ FEq(ms[i].tau, a[b+3]) /\ FEq(ms[i].J, a[b+4]), {"C13"}, "preset layout")
(* stand-alone helpers: nothing but their arguments matters *)
HELPERS == {"fsq", "fclamp", "fqd", "fqi", "fdrag", "faero", "fthr", "fvec", "ftor"}
HelperBad(op, a, rt, r) ==
  CASE op = "fsq"    -> Cl(ElNear(SignedSquare(a.v), rt.s, r) /\ SignKept(a.v, rt.s), {"C33"}, "signed square")
                        \cup Cl(ElNear(SignedRoot(a.v), rt.r, r) /\ SignKept(a.v, rt.r), {"C33"}, "signed root")
                        \cup Cl(ElNear(a.v, rt.rs, r) /\ ElNear(a.v, rt.sr, r), {"C33"}, "square and root undo each other")
    [] op = "fclamp" -> Cl(VSame(Clamped(a.v, a.lo, a.hi), rt.v), {"C33"}, "clamped vector")
    [] op = "fqd"    -> Cl(QDerNear(a.q, a.w, rt.v, r), {"C33"}, "derivative of a quaternion")
    [] op = "fqi"    -> Cl(QIntNear(a.q, a.w, a.dt, rt.v, r), {"C33"}, "integrated quaternion")
    [] op = "fdrag"  -> Cl(DragNear(a.c, a.v, rt.v, r), {"C33"}, "drag of arguments")
    [] op = "faero"  -> Cl(AeroNear(a.m, a.w, rt.v, r), {"C33"}, "aerodynamic moment of arguments")
    [] op = "fthr"   -> Cl(MixNear(<<a.m>>, a.w, <<rt.v>>, r), {"C33"}, "thrust of arguments")
    [] op = "fvec"   -> Cl(MixNear(a.m, a.w, rt.v, r), {"C33"}, "force of arguments")
    [] op = "ftor"   -> Cl(TorNear(a.m, a.mi, a.w, a.a, rt.v, r), {"C33"}, "torque of arguments")
ModelEv(m, op, a, ob, rt, seen, n, rel) ==
  CASE op = "mupd"   -> RetC(TLCEval(ModelUpdate(m, a.p)), {}, Cov(ParamsOk(a.p), "parameters accepted") \cup Cov(~ParamsOk(a.p), "parameters rejected"))
    [] op = "noise"  -> [Ret(m, NoiseBad(m, a.dt, ob.nf, ob.nm, seen.nf, seen.nm, FLt(F0, a.dt)))
                           EXCEPT !.z = IF FLt(F0, a.dt) THEN NoiseSample(m, a.dt, ob.nf, ob.nm) ELSE <<>>]
    [] op = "nonoise" -> Ret(m, Cl(VIsZero(ob.nf) /\ VIsZero(ob.nm), {"C15"}, "noise while off"))
    [] op = "drag"   -> Ret(m, Cl(VNear(Drag(m, a.v), rt.v, rel), {"C08"}, "drag"))
    [] op = "aerom"  -> Ret(m, Cl(VNear(AeroMoment(m, a.v), rt.v, rel), {"C09"}, "aerodynamic moment"))
    [] op = "thrust" -> Ret(m, Cl(Near(MotorThrust(m, a.w), rt.v, rel), {"C13", "C08"}, "thrust by motors"))
    [] op = "force"  -> Ret(m, Cl(VNear(MotorForce(m, a.w), rt.v, rel), {"C13", "C08"}, "force by motors"))
    [] op = "torque" -> Ret(m, Cl(VNear(MotorTorque(m, a.w, a.a), rt.v, rel), {"C13", "C09"}, "torque by motors"))
    [] op = "check"  -> Ret(m, Cl(rt.v = ParamsOk(a.p), {"C14"}, "validation"))
    [] op = "mix"    -> LET ms == a.p.motors  m4 == Mix4(ms) IN
                        Ret(m, Cl(MixersNear(ms, SubSeq(rt.m6, 1, 3), SubSeq(rt.m6, 4, 6), rt.mi, rel), {"C13"}, "computed mixers")
                               \cup Cl(/\ Len(rt.m4) = 4
                                       /\ \A j \in 1..Len(ms) : \A i \in 1..4 :
                                            FLe(FAbs(rt.m4[i][j] (-) m4[i][j]), rel (\X) RotorSize(ms[j])), {"C13"}, "flat mixer"))
    [] op = "preset" -> Ret(m, PresetBad(a.kind, a.v, rt.motors, rel))
    [] op \in HELPERS -> RetC(m, HelperBad(op, a, rt, rel), {op})
    [] op = "inv"    -> \* rt.v (N x 6) inverts the lower four rows of a.m (6 x N) and ignores the first two
                        LET B  == SubSeq(a.m, 3, 6)
                            Bi == TLCEval([i \in 1..4 |-> SubSeq(rt.v[i], 3, 6)])
                            Pr == MMul(B, Bi)
                        IN Ret(m, Cl(/\ \A i \in 1..4 : FEq(rt.v[i][1], F0) /\ FEq(rt.v[i][2], F0)
                                     /\ \A i, j \in 1..4 : FLe(FAbs(Pr[i][j] (-) (IF i = j THEN F1 ELSE F0)), FRat(1, IF FLt(rel, FRat(1, 100000)) THEN 1000000 ELSE 100)),
                                     {"C13"}, "mixer inverse"))

-----------------------------------------------------------------------------
(* dynamics *)
StSee(ob) == [p |-> ob.p, q |-> ob.q, v |-> ob.v, w |-> ob.w, a |-> ob.a, dw |-> ob.dw,
              F |-> ob.F, T |-> ob.T, mw |-> ob.mw, ma |-> ob.ma]
StNear(x, ob, rel) == \A f \in DOMAIN x : VNear(x[f], ob[f], rel)
StSame(x, ob) == \A f \in DOMAIN x : VSame(x[f], ob[f])
(* the increments of a short step are small: closer comparison *)
KRel(rel) == rel (\X) FRat(1, 100)
(* forces, torques and motors of one substep.  g: extra tags *)
KnownT == {<<"C15", "angular dynamics perturbed by the stochastic force instead of the stochastic moment">>}
StepBad(m, s, cmd, dt, ext, ob, nf, nm, rel, g) ==
  LET ma == MotorAcc(m, s.mw, cmd)
      noisy == ~VIsZero(nf) \/ ~VIsZero(nm)
      Ta == NetTorque(m, s, ob.ma, nm)
      okT == VNear(Ta, ob.T, rel)
      known == ~okT /\ VNear(NetTorque(m, s, ob.ma, nf), ob.T, rel)
      N15 == IF noisy THEN {"C15"} ELSE {}
      Fa == NetForce(m, s, ext, nf)
      \* a force that is wrong along the external force: the external force was not used as given
      X10 == IF ~VIsZero(ext) /\ VNear(Cross(VSub(ob.F, Fa), ext), Zero3, rel (\X) FInt(1000)) THEN {"C10"} ELSE {}
  IN [bad |-> Cl(VNear(ma, ob.ma, rel), {"C11"} \cup g, "motor acceleration")
              \cup Cl(VNear(MotorStep(m, s.mw, ob.ma, dt), ob.mw, KRel(rel)), {"C10", "C11"} \cup g, "motor speed")
              \cup Cl(MotorsInRange(m, ob.mw), {"C11"}, "motor speed out of range")
              \cup Cl(VNear(Fa, ob.F, rel), {"C08"} \cup N15 \cup g \cup X10, "net force")
              \cup Cl(okT \/ known, {"C09"} \cup N15 \cup g, "net torque")
              \cup Cl(VNear(QStep(s.q, s.w, dt), ob.q, KRel(rel)), {"C09", "C10"}, "orientation"),
      kn |-> IF known THEN KnownT ELSE {}]
(* motion of one substep without contact *)
KinBad(m, s, dt, ob, rel, g) ==
  Cl(VNear(VScale(F1 (/) m.par.mass, ob.F), ob.a, rel), {"C08"} \cup g, "acceleration")
  \cup Cl(VNear(VAdd(s.v, VScale(dt, ob.a)), ob.v, KRel(rel)), {"C08", "C10"}, "velocity")
  \cup Cl(VNear(VAdd(s.p, VScale(dt, s.v)), ob.p, KRel(rel)), {"C08", "C10"}, "position")
  \cup Cl(NearS(MVec(m.jinv, ob.T), ob.dw, rel, F1), {"C09"} \cup g, "angular acceleration")
  \cup Cl(VNear(VAdd(s.w, VScale(dt, ob.dw)), ob.w, KRel(rel)), {"C09", "C10"}, "rates")
StHealthy(ob, rel) ==
  Cl(UnitQ(ob.q, NormRel(rel)), {"C12"}, "orientation norm")
  \cup Cl(StateFin(ob), {"C12"}, "state not finite")
(* several substeps: everything against the specification's own integration;
   a motor near its command has an acceleration that is a small difference *)
AccScale(m, mw) == VMaxAbs(m.it) (\X) VMaxAbs(mw)
LongBad(m, x, ob, rel, fields, g) ==
  Cl("mw" \in fields => VNear(x.mw, ob.mw, rel) /\ NearS(x.ma, ob.ma, rel, AccScale(m, x.mw)), {"C11", "C10"} \cup g, "motors after substeps")
  \cup Cl(VNear(x.q, ob.q, rel), {"C09", "C10"}, "orientation after substeps")
  \cup Cl(VNear(x.F, ob.F, rel), {"C08", "C10"} \cup g, "force after substeps")
  \cup Cl(NearS(x.T, ob.T, rel, VMaxAbs(m.mi[1] \o m.mi[2] \o m.mi[3]) (\X) AccScale(m, x.mw)), {"C09", "C10"} \cup g, "torque after substeps")
  \cup Cl("p" \in fields => VNear(x.p, ob.p, rel) /\ VNear(x.v, ob.v, rel) /\ VNear(x.a, ob.a, rel), {"C08", "C10"}, "motion after substeps")
  \cup Cl("p" \in fields => VNear(x.w, ob.w, rel) /\ VNear(x.dw, ob.dw, rel), {"C09", "C10"}, "rotation after substeps")
LongRel(rel) == rel (\X) FInt(10)

DynEv(o, e) ==
  LET d == o.s  m == d.m  a == e.a  op == e.op  ob == e.s  rel == o.rel
      nf == ob.mo.nf  nm == ob.mo.nm
      g == IF o.upd THEN {"C14"} ELSE {}
      see(mm) == [m |-> mm, st |-> StSee(ob)]
  IN CASE op = "step" ->
            IF FLe(a.dt, F0)
            THEN RetC(d, Cl(e.x = "invalid_argument", {"C10"}, "bad step accepted")
                         \cup Cl(Strip("dyn", ob) = o.seen, {"C10"}, "bad step changed the vehicle"), {"bad step"})
            ELSE IF NumSub(a.dt) = 1
            THEN LET b == StepBad(m, d.st, a.cmd, a.dt, a.ext, ob, nf, nm, rel, g)
                 IN [s |-> see(m), kn |-> b.kn, z |-> IF a.noise THEN NoiseSample(m, a.dt, nf, nm) ELSE <<>>, upd |-> FALSE,
                     bad |-> b.bad \cup Cl(StSame(SubStep(m, d.st, a.cmd, a.dt, a.ext, nf, nm), d.st) \/ ~StSame(d.st, ob), {"C10"}, "step not performed") \cup KinBad(m, d.st, a.dt, ob, rel, g) \cup StHealthy(ob, rel)
                             \cup NoiseBad(m, a.dt, nf, nm, o.seen.mo.nf, o.seen.mo.nm, a.noise),
                     cov |-> {"dyn step"} \cup Cov(~VIsZero(nf), "dyn step with noise")
                             \cup Cov(~VSame(VClamp(a.cmd, m.mn, m.mx), a.cmd), "motor command limited")]
            ELSE LET x == Step(m, d.st, a.cmd, a.dt, a.ext, Zero3, Zero3)
                 IN RetC(see(m), LongBad(m, x, ob, LongRel(rel), {"p", "mw"}, g) \cup StHealthy(ob, rel)
                                 \cup Cl(MotorsInRange(m, ob.mw), {"C11"}, "motor speed out of range"), {"dyn long step"})
       [] op = "steps" -> \* many steps, only the outcome observed
            RetC(see(m), StHealthy(ob, rel) \cup Cl(MotorsInRange(m, ob.mw), {"C11"}, "motor speed out of range")
                         \cup Cl(VNear(MotorsAfter(m, d.st.mw, a.cmd, a.dt, a.k), ob.mw, rel (\X) FInt(10)), {"C11", "C10"}, "motor speeds after many steps"), {"many steps"})
       [] op \in {"setst", "setstp"} ->
            Ret(see(m), Cl(StSame(a.st, ob), {"C27"}, "state set") \cup Cl(StripMo(ob.mo) = o.seen.mo, {"C28"}, "setting the state changed the model"))
       [] op = "setnull" -> Ret(d, Cl(Strip("dyn", ob) = o.seen, {"C28"}, "null pointer changed the object"))
       [] op \in {"setmodel", "setmodelp"} ->
            [Ret(see(Derive(a.p)), Cl(StSame(d.st, ob), {"C27"}, "setting the model changed the state")) EXCEPT !.upd = TRUE]
       [] op = "mupd" -> LET r == ModelEv(m, op, a, ob.mo, e.rt, o.seen.mo, o.n, rel)
                         IN [r EXCEPT !.s = see(r.s), !.upd = TRUE,
                                      !.bad = @ \cup Cl(StSame(d.st, ob), {"C14"}, "parameter update changed the state")]
       [] op = "csv" -> Ret(d, StateRow(ob, o.n, e.rt, rel))
       [] op = "print" -> Ret(d, StatePrint(ob, o.n, e.rt, rel))

-----------------------------------------------------------------------------
(* controllers *)
CtlSee(c, ob) ==
  [c EXCEPT !.rp = PidSee(c.rp, ob.rp), !.pp = PidSee(c.pp, ob.pp), !.tp = PidSee(c.tp, ob.tp), !.vp = PidSee(c.vp, ob.vp),
            !.ar = ob.ar, !.tq = ob.tq, !.th = ob.th, !.dpos = ob.dpos, !.dvel = ob.dvel, !.dacc = ob.dacc,
            !.dthr = ob.dthr, !.drat = ob.drat]
LoopBad(x, ob, rel, tags, d) == PidCallBad(x, ob, rel, tags, tags, tags, d)
(* well-conditioned attitude problem: thrust direction defined and not along the heading *)
Conditioned(c, acc, T, yaw, rel) ==
  LET k == FSqrt(rel) IN
  /\ FLt(k (\X) (FAbs(c.acro.m) (\X) (VNorm(acc) (+) VNorm(c.acro.g))), VNorm(T))
  /\ FLt(FMax(k, FRat(1, 100)), VNorm(Cross(VUnit(T), <<FCos(yaw), FSin(yaw), F0>>)))
(* acceleration to thrust and rates *)
AccelBad(c, acc, q, yaw, thr, rat, ar, rel, tags) ==
  LET R == QMat(q)
      T == ThrustVec(c, acc)
      well == Conditioned(c, acc, T, yaw, rel)
      r == AttitudeRates(c, R, T, yaw)
      bt == BodyThrust(R, T)
      tie == ThrustTie(R, T, rel)
      neg == ThrustNegative(R, T)
      rr == rel (\X) FInt(100)
      zero == VIsZero(rat)
      asIs == ~well \/ VNear(r, rat, rr)
  IN [bad |-> Cl(Near(IF neg THEN F0 ELSE bt, thr, rr), tags, "thrust")
              \cup Cl(FLe(F0, thr), tags, "negative thrust")
              \cup Cl(IF tie THEN zero \/ asIs ELSE IF neg THEN zero ELSE asIs, tags, "body rates")
              \cup Cl(well => VNear(r, ar, rr), tags, "attitude law")
              \cup Cl(VFin(ar) /\ VFin(rat) /\ FFin(thr), tags \cup {"C12"}, "thrust or rates not finite"),
      cov |-> Cov(well, "attitude regular") \cup Cov(~well, "attitude degenerate") \cup Cov(neg, "negative thrust projection")]
(* rates and thrust to motors, from the reported thrust and rates *)
RateBad(c, w, thr, rat, dt, ob, rel, tags) ==
  LET rp == PidCompute(c.rp, dt, VSub(rat, w))
      J  == c.indi.J
      tq == VAdd(MVec(J, ob.rp.out), Cross(rat, MVec(J, rat)))
      u  == <<F0, F0, thr, ob.tq[1], ob.tq[2], ob.tq[3]>>
      sq == MVec(c.indi.minv, u)
      sc == FMul(VMaxAbs(u), FMax(VMaxAbs(c.indi.minv[1]), VMaxAbs(c.indi.minv[Len(c.indi.minv)])))
  IN [rp |-> rp,
      bad |-> LoopBad(rp, ob.rp, rel, tags, FALSE)
              \cup Cl(NearS(tq, ob.tq, rel, VMaxAbs(MVec(J, ob.rp.out))), tags, "torque")
              \cup Cl(VNear(<<F0, F0, thr>>, ob.th, rel), tags, "thrust vector")
              \cup Cl(NearS(sq, VSqSign(ob.imot), rel, sc), tags, "motor allocation")
              \cup Cl(VFin(ob.imot), tags \cup {"C12"}, "motor command not finite")]
NoPid == "none"
(* a complete control call.  i: inputs p v q w pd vd ad y dt th rt a; only those
   the operation uses are evaluated.  x2: extra tags (C02 inside the simulator) *)
CtlCall(c, op, i, ob, seen, rel, x2, dy) ==
  LET t22 == {"C22"} \cup x2  t21 == {"C21"} \cup x2 \cup DirtyT(dy, "acro")  t23 == {"C23"} \cup x2 \cup DirtyT(dy, "indi")
      tl(x) == t22 \cup DirtyT(dy, x)
      usePP == op = "pos"  useVP == op \in {"pos", "vel"}  useTP == op = "traj"  useAcc == op # "acro"
      pp == PidCompute(c.pp, i.dt, VSub(i.pd, i.p))
      vd == IF usePP THEN ob.pp.out ELSE i.vd
      vp == PidCompute(c.vp, i.dt, VSub(vd, i.v))
      tp == PidComputeD(c.tp, i.dt, VSub(i.pd, i.p), VSub(i.vd, i.v))
      acc == CASE useVP -> ob.vp.out [] useTP -> VAdd(ob.tp.out, i.ad) [] OTHER -> i.a
      ab == AccelBad(c, acc, i.q, i.y, ob.dthr, ob.drat, ob.ar, rel, t21)
      thr == IF useAcc THEN ob.dthr ELSE i.th
      rat == IF useAcc THEN ob.drat ELSE i.rt
      rb == RateBad(c, i.w, thr, rat, i.dt, ob, rel, t23 \cup DirtyT(dy, "rp"))
      b == (IF usePP THEN LoopBad(pp, ob.pp, rel, tl("pp"), FALSE) ELSE Cl(ob.pp = seen.pp, t22, "position loop touched"))
           \cup (IF useVP THEN LoopBad(vp, ob.vp, rel, tl("vp"), FALSE) ELSE Cl(ob.vp = seen.vp, t22, "velocity loop touched"))
           \cup (IF useTP THEN LoopBad(tp, ob.tp, rel, tl("tp"), TRUE) ELSE Cl(ob.tp = seen.tp, t22, "trajectory loop touched"))
           \cup (IF usePP \/ useTP THEN Cl(VNear(i.pd, ob.dpos, rel), t22, "reported desired position") ELSE {})
           \cup (IF useVP \/ useTP THEN Cl(VNear(vd, ob.dvel, rel), t22, "reported desired velocity") ELSE {})
           \cup (IF useAcc THEN Cl(VNear(acc, ob.dacc, rel), t22, "reported desired acceleration") \cup ab.bad
                 ELSE Cl(VNear(<<i.th>>, <<ob.dthr>>, rel) /\ VNear(i.rt, ob.drat, rel), t22, "reported desired thrust and rates"))
           \cup rb.bad
           \cup Cl(VSame(ob.mot, ob.imot), t23 \cup t22, "reported motor command")
      c2 == [c EXCEPT !.rp = rb.rp, !.pp = IF usePP THEN pp ELSE c.pp, !.vp = IF useVP THEN vp ELSE c.vp,
                      !.tp = IF useTP THEN tp ELSE c.tp]
  IN RetC(CtlSee(c2, ob), b, {op} \cup IF useAcc THEN ab.cov ELSE {})
CtlFullBad(c, ob) ==
  PidParBad(c.rp, ob.rp.par) \cup PidParBad(c.pp, ob.pp.par) \cup PidParBad(c.tp, ob.tp.par) \cup PidParBad(c.vp, ob.vp.par)
  \cup Cl(FEq(c.acro.m, ob.acro.m) /\ SameM(c.acro.kp, ob.acro.kp) /\ VSame(c.acro.g, ob.acro.g), {"C27"}, "attitude parameters read back")
  \cup Cl(SameM(c.indi.J, ob.indi.J) /\ SameM(c.indi.minv, ob.indi.minv), {"C27"}, "rate parameters read back")
CtlParam(c, op, a) ==
  CASE op = "uacro" -> CtlSetAcro(c, a.p)
    [] op = "uindi" -> CtlSetIndi(c, a.p)
    [] op = "upos"  -> CtlSetPos(c, a.p)
    [] op = "utra"  -> CtlSetTra(c, a.p)
    [] op = "uvel"  -> CtlSetVel(c, a.p)
    [] op = "uall"  -> CtlSetAll(c, a.p)
    [] op = "amass" -> [c EXCEPT !.acro.m = a.v]
    [] op = "agrav" -> [c EXCEPT !.acro.g = a.v]
    [] op = "akp"   -> [c EXCEPT !.acro.kp = a.v]
    [] op = "iJ"    -> [c EXCEPT !.indi.J = a.v]
    [] op = "iminv" -> [c EXCEPT !.indi.minv = a.v]
    [] op = "creset" -> CtlReset(c)
    [] op = "loop"  -> [c EXCEPT ![a.loop] = PidSet(c[a.loop], a.op, a.a)]
CtlParamOps == {"uacro", "uindi", "upos", "utra", "uvel", "uall", "amass", "agrav", "akp", "iJ", "iminv", "creset", "loop"}
CtlEv(c, op, a, ob, seen, rt, rel, dy) ==
  CASE op \in {"acro", "accel", "traj", "vel", "pos"} ->
         LET r == CtlCall(c, op, a, ob, seen, rel, {}, dy)
         IN [r EXCEPT !.bad = @ \cup Cl(VSame(rt.v, ob.mot), {"C22", "C23"}, "returned motor command")]
    [] op \in CtlParamOps -> Ret(CtlSee(CtlParam(c, op, a), ob),
         Cl(op = "creset" \/ (op = "loop" /\ a.op = "reset") \/ StripCtl(ob) = seen, {"C27"}, "a parameter change altered reported values"))
    [] op = "kacro" -> LET r == RateBad(c, a.w, a.th, a.rt, a.dt, ob, rel, {"C23"} \cup DirtyT(dy, "rp") \cup DirtyT(dy, "indi"))
                       IN Ret(CtlSee([c EXCEPT !.rp = r.rp], ob), r.bad \cup Cl(VSame(rt.v, ob.imot), {"C23"}, "returned motor command"))
    [] op = "kacc"  -> LET r == AccelBad(c, a.a, a.q, a.y, rt.t, rt.w, ob.ar, rel, {"C21"} \cup DirtyT(dy, "acro")) IN RetC(CtlSee(c, ob), r.bad, r.cov)
    [] op = "ktraj" -> LET tp == PidComputeD(c.tp, a.dt, VSub(a.pd, a.p), VSub(a.vd, a.v))
                       IN Ret(CtlSee([c EXCEPT !.tp = tp], ob), LoopBad(tp, ob.tp, rel, {"C22"} \cup DirtyT(dy, "tp"), TRUE)
                              \cup Cl(VNear(VAdd(ob.tp.out, a.ad), rt.v, rel), {"C22"}, "acceleration"))
    [] op = "kvel"  -> LET vp == PidCompute(c.vp, a.dt, VSub(a.vd, a.v))
                       IN Ret(CtlSee([c EXCEPT !.vp = vp], ob), LoopBad(vp, ob.vp, rel, {"C22"} \cup DirtyT(dy, "vp"), FALSE)
                              \cup Cl(VSame(ob.vp.out, rt.v), {"C22"}, "acceleration"))
    [] op = "kpos"  -> LET pp == PidCompute(c.pp, a.dt, VSub(a.pd, a.p))
                       IN Ret(CtlSee([c EXCEPT !.pp = pp], ob), LoopBad(pp, ob.pp, rel, {"C22"} \cup DirtyT(dy, "pp"), FALSE)
                              \cup Cl(VSame(ob.pp.out, rt.v), {"C22"}, "velocity"))
    [] op = "yawrate" -> RetC(c, Cl(Near(YawFromRate(c, a.y, a.w), rt.v, rel), {"C05"}, "yaw from yaw rate"),
                              Cov(FEq(c.acro.kp[3][3], F0), "yaw gain zero"))
    [] op = "thrust" -> Ret(c, Cl(VNear(ThrustVec(c, a.a), rt.v, rel), {"C21"}, "thrust vector of acceleration"))
    \* sub-controllers of their own, built from separate arguments and used once
    [] op = "sacro" -> LET cc == [acro |-> [m |-> a.m, kp |-> a.kp, g |-> a.g]]
                           T  == ThrustVec(cc, a.a)
                       IN Ret(c, Cl(VNear(T, rt.t, rel) /\ VFin(rt.v), {"C21"}, "thrust of a separate attitude controller")
                                 \cup Cl(Conditioned(cc, a.a, T, a.y, rel) => VNear(AttitudeRates(cc, QMat(a.q), T, a.y), rt.v, rel (\X) FInt(100)), {"C21"}, "rates of a separate attitude controller")
                                 \cup Cl(ob = seen, {"C28"}, "another object did something"))
    [] op = "sindi" -> LET x  == PidCompute(PidNew(3, c.rp.eps, a.pid), a.dt, VSub(a.rt, a.w))
                           tq == VAdd(MVec(a.J, x.out), Cross(a.rt, MVec(a.J, a.rt)))
                           u  == <<F0, F0, a.th, rt.tq[1], rt.tq[2], rt.tq[3]>>
                           sc == FMul(VMaxAbs(u), FMax(VMaxAbs(a.minv[1]), VMaxAbs(a.minv[Len(a.minv)])))
                       IN Ret(c, Cl(NearS(tq, rt.tq, rel, VMaxAbs(a.J[1] \o a.J[2] \o a.J[3]) (\X) (ScaleOf(x) (+) VMaxAbs(x.out))), {"C23"}, "torque of a separate rate controller")
                                 \cup Cl(NearS(MVec(a.minv, u), VSqSign(rt.v), rel, sc), {"C23"}, "motors of a separate rate controller")
                                 \cup Cl(ob = seen, {"C28"}, "another object did something"))
    [] op \in {"spos", "svel"} -> LET x == PidCompute(PidNew(3, c.rp.eps, a.pid), a.dt, VSub(a.xd, a.x))
                       IN Ret(c, Cl(NearS(x.out, rt.v, rel, ScaleOf(x)), {"C22"}, "separate loop") \cup Cl(ob = seen, {"C28"}, "another object did something"))
    [] op = "stra" -> LET x == PidComputeD(PidNew(3, c.rp.eps, a.pid), a.dt, VSub(a.xd, a.x), VSub(a.vd, a.v))
                       IN Ret(c, Cl(NearS(VAdd(x.out, a.ad), rt.v, rel, ScaleOf(x)), {"C22"}, "separate loop") \cup Cl(ob = seen, {"C28"}, "another object did something"))
    [] op = "rates"  -> LET T == a.th  R == QMat(a.q)
                            well == FLt(FSqrt(rel), VNorm(T)) /\ FLt(FMax(FSqrt(rel), FRat(1, 100)), VNorm(Cross(VUnit(T), <<FCos(a.y), FSin(a.y), F0>>)))
                        IN Ret(CtlSee(c, ob), Cl(VFin(rt.v), {"C21"}, "rates not finite")
                               \cup Cl(well => VNear(AttitudeRates(c, R, T, a.y), rt.v, rel (\X) FInt(100)), {"C21"}, "attitude law"))

-----------------------------------------------------------------------------
(* simulator *)
SimSee(s, ob) ==
  [s EXCEPT !.st = StSee(ob.st), !.nf = ob.mo.nf, !.nm = ob.mo.nm, !.ctl = CtlSee(s.ctl, ob.ctl),
            !.imu = ImuSee(s.imu, ob.imu), !.odo = OdoSee(s.odo, ob.odo), !.armed = ob.armed, !.fe = ob.fe, !.fh = ob.fh,
            !.r = ob.r, !.act = ob.act, !.ext = ob.ext, !.mode = ob.mode, !.ym = ob.ym]
SimFields == {"st", "mo", "ctl", "imu", "odo", "armed", "fe", "fh", "r", "act", "ext", "mode", "ym"}
Kept(ob, seen, names, tags) ==
  UNION {Cl(ob[f] = seen[f], tags, "changed: " \o f) : f \in names}
KeptR(ob, seen, names, tags) ==
  UNION {Cl(ob.r[f] = seen.r[f], tags, "changed: reference " \o f) : f \in names}
RefNames == {"mw", "thr", "rat", "pos", "vel", "acc", "yaw", "yr"}
SetRef(s2, ob, seen, names, tags) ==       \* a setter of the named references
  Kept(ob, seen, SimFields \ {"r"}, tags) \cup KeptR(ob, seen, RefNames \ names, tags)
  \cup UNION {Cl(IF f \in {"thr", "yaw", "yr"} THEN FEq(s2.r[f], ob.r[f]) ELSE VSame(s2.r[f], ob.r[f]), tags, "reference " \o f) : f \in names}
SimT == {"C04"}

(* the control operation and inputs of a mode *)
ModeOp(s) == CASE s.mode = ACRO -> "acro" [] s.mode = TRAJECTORY -> "traj" [] s.mode = VELOCITY -> "vel" [] OTHER -> "pos"
ModeIn(s, dt) == [p |-> s.st.p, v |-> s.st.v, q |-> s.st.q, w |-> s.st.w, dt |-> dt, pd |-> s.r.pos, vd |-> s.r.vel,
                  ad |-> s.r.acc, y |-> s.r.yaw, th |-> s.r.thr, rt |-> s.r.rat, a |-> s.r.acc]

SimUc(o, s, dt, ob, rel) ==
  LET seen == o.seen
      others == SimFields \ {"ctl", "act", "r"}
  IN IF ~s.armed
     THEN RetC(SimSee(s, ob),
               Cl(VIsZero(ob.act), {"C01"}, "command while disarmed")
               \cup Kept(ob, seen, others, {"C01", "C28"}) \cup KeptR(ob, seen, RefNames, {"C05", "C28"}), {"update disarmed"})
     ELSE LET y == AimYaw(s)
              \* the control law uses the yaw reference the vehicle reports
              u == [y EXCEPT !.r.yaw = ob.r.yaw]
              c == CtlCall(s.ctl, ModeOp(s), ModeIn(u, dt), ob.ctl, seen.ctl, rel, {"C02"}, o.dirty)
              common == Kept(ob, seen, others, {"C02"}) \cup KeptR(ob, seen, RefNames \ {"yaw"}, {"C02"})
                        \cup (IF s.ym = RATE THEN Cl(NearAngle(y.r.yaw, ob.r.yaw, rel), {"C05"}, "yaw reference in rate mode")
                              ELSE Cl(ob.r.yaw = seen.r.yaw, {"C05"}, "yaw reference in angle mode"))
              lbl == Cov(s.ym = RATE, "yaw rate mode") \cup Cov(FEq(s.ctl.acro.kp[3][3], F0), "yaw gain zero")
          IN IF s.mode = MOTOR_W
             THEN RetC(SimSee(s, ob), common \cup Cl(VSame(ob.act, s.r.mw), {"C02"}, "motor references passed through")
                                      \cup Cl(ob.ctl = seen.ctl, {"C02"}, "controller ran in motor mode"), lbl \cup {"mode 1"})
             ELSE RetC([SimSee(s, ob) EXCEPT !.ctl = c.s],
                       common \cup c.bad \cup Cl(VSame(ob.act, ob.ctl.mot), {"C02"}, "motor command is the controller's"),
                       lbl \cup c.cov \cup {"mode " \o ToString(s.mode)})

SimUd(o, s, dt, ob, rel) ==
  LET seen == o.seen
      m == s.m
      nf == ob.mo.nf  nm == ob.mo.nm
      noisy == ~s.fc
      ext == Support(s)
      g == IF o.upd THEN {"C14"} ELSE {}
      one == NumSub(dt) = 1
      free == IF one THEN SubStep(m, s.st, s.act, dt, ext, nf, nm)
              ELSE Step(m, s.st, s.act, dt, ext, Zero3, Zero3)
      stopped == /\ FEq(ob.st.p[3], s.fh) /\ VIsZero(ob.st.v) /\ VIsZero(ob.st.w)
                 /\ VIsZero(ob.st.a) /\ VIsZero(ob.st.dw)
      \* where the altitude is too close to call, the implementation decides
      contact == IF LandTie(s, free, rel) THEN stopped ELSE Lands(s, free)
      b == StepBad(m, s.st, s.act, dt, ext, ob.st, nf, nm, rel, g)
      odo2 == OdoReset(OdoSetOrientation(s.odo, ob.st.q))
      fl == (IF s.fe THEN {} ELSE IF FLt(s.st.p[3], s.fh) \/ FLe(free.p[3], s.fh) THEN {"C06"} ELSE {}) \cup (IF BelowFloor(s) THEN {"C07"} ELSE {})
      \* what the step may not do without contact
      t7 == {"C07"} \cup (IF s.fe THEN {} ELSE {"C06"})
      motion == IF one THEN b.bad \cup (IF contact THEN {} ELSE KinBad(m, s.st, dt, ob.st, rel, g))
                ELSE LongBad(m, free, ob.st, LongRel(rel), IF contact THEN {"mw"} ELSE {"p", "mw"}, g)
      all == motion \cup {<<h, "motion near the floor">> : h \in (IF motion # {} THEN fl ELSE {})}
             \cup StHealthy(ob.st, rel)
             \cup Cl(MotorsInRange(m, ob.st.mw), {"C11"}, "motor speed out of range")
             \cup NoiseBad(m, dt, nf, nm, s.nf, s.nm, noisy)
             \cup Cl(noisy \/ (VIsZero(nf) /\ VIsZero(nm)), {"C07", "C15"}, "noise after contact")
             \cup Cl(s.fe \/ StSame(free, s.st) \/ ~StSame(s.st, ob.st), {"C10"}, "step not performed")
             \cup Cl(s.fe => FLe(s.fh, ob.st.p[3]), {"C06"}, "below the floor")
             \cup Cl(VIsZero(ob.ext), {"C04", "C08"}, "external force left pending")
             \cup Kept(ob, seen, {"ctl", "armed", "fe", "fh", "r", "act", "mode", "ym"}, {"C04"})
             \cup (IF contact
                   THEN Cl(stopped, {"C07"}, "contact stops the vehicle")
                        \cup Cl(VNear(SubSeq(free.p, 1, 2), SubSeq(ob.st.p, 1, 2), LongRel(rel)), {"C07"}, "horizontal position kept")
                        \cup Cl(VNear(free.q, ob.st.q, LongRel(rel)) /\ VNear(free.F, ob.st.F, LongRel(rel)) /\ VNear(free.mw, ob.st.mw, LongRel(rel))
                                /\ NearS(free.ma, ob.st.ma, LongRel(rel), AccScale(m, free.mw))
                                /\ (b.kn # {} \/ NearS(free.T, ob.st.T, LongRel(rel), VMaxAbs(m.mi[1] \o m.mi[2] \o m.mi[3]) (\X) AccScale(m, free.mw))), {"C07"}, "kept through contact")
                        \cup Cl(VIsZero(ob.imu.gb) /\ VIsZero(ob.imu.ab) /\ VIsZero(ob.imu.gy) /\ VIsZero(ob.imu.ac), {"C07"}, "sensor reset on contact")
                        \cup Cl(OdoIs(odo2, ob.odo, rel), {"C07"}, "odometry reset on contact")
                   ELSE Kept(ob, seen, {"imu", "odo"}, t7)
                        \cup Cl(noisy => ~((~FEq(m.par.sF, F0) /\ VIsZero(nf)) \/ (~FEq(m.par.sM, F0) /\ VIsZero(nm))), t7, "noise missing without contact")
                        \cup Cl(~(s.fe /\ stopped /\ ~VIsZero(free.v)), {"C07"}, "stopped without contact"))
      s2 == SimSee(s, ob)
  IN [s |-> [s2 EXCEPT !.fc = contact, !.odo = IF contact THEN odo2 ELSE s2.odo],
      bad |-> all, kn |-> IF one THEN b.kn ELSE {}, upd |-> FALSE,
      z |-> IF noisy THEN NoiseSample(m, dt, nf, nm) ELSE <<>>,
      cov |-> {"update"} \cup Cov(contact, "contact") \cup Cov(BelowFloor(s), "starts below the floor") \cup Cov(~one, "long update")
              \cup Cov(s.fc /\ ~contact, "leaves the floor")]

SimUi(o, s, dt, ob, rel) ==
  IF FLe(dt, F0) THEN RetC(s, Cl(Strip("sim", ob) = o.seen, {"C24"}, "non-positive step changed the sensor"), {"imu bad step"})
  ELSE LET c == ImuCall(s.imu, dt, BodySpecificForce(s), s.st.w, ob.imu, rel,
                        IF ImuStill(s.imu) THEN {"C24", "C26"} ELSE {"C24"})
       IN [Ret([SimSee(s, ob) EXCEPT !.imu = c.s], c.bad \cup Kept(ob, o.seen, SimFields \ {"imu"}, {"C24", "C28"})
               \* noise-free in flight: the true rates and acceleration
               \cup Cl(o.trk.on => VNear(s.st.w, ob.imu.gy, rel)
                                   /\ VNear(QRot(QInv(s.st.q), s.st.a), ob.imu.ac, rel), {"C26"}, "true rates and acceleration")) EXCEPT !.z = c.z]
SimUo(o, s, dt, ob, rel) ==
  LET c == OdoCall(s.odo, s.imu.gy, s.imu.ac, dt, ob.odo, rel, IF ImuStill(s.imu) THEN {"C25", "C26"} ELSE {"C25"})
  IN Ret([SimSee(s, ob) EXCEPT !.odo = c.s], c.bad \cup Kept(ob, o.seen, SimFields \ {"odo"}, {"C25", "C28"}))

(* the loops an operation runs *)
Ran(op) == CASE op = "pos" -> {"pp", "vp", "rp", "acro", "indi"} [] op = "vel" -> {"vp", "rp", "acro", "indi"}
             [] op = "traj" -> {"tp", "rp", "acro", "indi"} [] op = "accel" -> {"rp", "acro", "indi"} [] op \in {"acro", "kacro"} -> {"rp", "indi"}
             [] op = "kacc" \/ op = "rates" \/ op = "thrust" -> {"acro"}
             [] op = "ktraj" -> {"tp"} [] op = "kvel" -> {"vp"} [] op = "kpos" -> {"pp"} [] OTHER -> {}
(* many update cycles, only the outcome observed.  The hidden memory is
   recovered from what is reported: integral and derivative contributions *)
Snap(x, b, rel) == IF Near(x, b, rel) THEN b ELSE IF Near(x, FNeg(b), rel) THEN FNeg(b) ELSE x
PidWarp(s, ob, rel) ==
  [PidSee(s, ob) EXCEPT !.first = FALSE,
     !.acc  = TLCEval([i \in 1..s.n |-> IF FEq(s.ki[i], F0) THEN s.acc[i] ELSE Snap(ob.I[i] (/) s.ki[i], s.aw[i], rel)]),
     !.filt = TLCEval([i \in 1..s.n |-> IF FEq(s.kd[i], F0) THEN s.filt[i] ELSE ob.D[i] (/) s.kd[i]])]
SimFly(o, s, ob, rel) ==
  LET seen == o.seen
      op   == ModeOp(s)
      runs(x) == s.armed /\ s.mode # MOTOR_W /\ x \in Ran(op)
      loop(x) == IF runs(x) THEN PidWarp(s.ctl[x], ob.ctl[x], rel) ELSE s.ctl[x]
      c    == [s.ctl EXCEPT !.rp = loop("rp"), !.pp = loop("pp"), !.vp = loop("vp"), !.tp = loop("tp")]
      s2   == SimSee([s EXCEPT !.ctl = c], ob)
      still == s.fe /\ FEq(ob.st.p[3], s.fh) /\ VIsZero(ob.st.v) /\ VIsZero(ob.st.w)
  IN RetC([s2 EXCEPT !.fc = still, !.odo.gf = ob.odo.w],
          StHealthy(ob.st, rel) \cup OdoHealthy(ob.odo, rel)
          \cup Cl(MotorsInRange(s.m, ob.st.mw), {"C11"}, "motor speed out of range")
          \cup Cl(s.fe => FLe(s.fh, ob.st.p[3]), {"C06"}, "below the floor")
          \cup Cl(s.armed \/ VIsZero(ob.act), {"C01"}, "command while disarmed")
          \cup UNION {Cl(runs(x) \/ ob.ctl[x] = seen.ctl[x], {"C02", "C22"}, "loop of another mode ran: " \o x) : x \in Loops}
          \cup Kept(ob, seen, {"armed", "fe", "fh", "mode", "ym"}, {"C04"})
          \cup KeptR(ob, seen, RefNames \ (IF s.ym = RATE THEN {"yaw"} ELSE {}), {"C04"}), {"flown"})
(* where closed-loop control brings a well-configured vehicle (C31) *)
GoalBad(s, g) ==
  LET k == s.st
      off(x, y) == VNorm(VSub(x, y))
  IN CASE g.kind = "at"    -> Cl(FLe(off(k.p, g.p), g.tol), {"C31"}, "position reached")
       [] g.kind = "still" -> Cl(FLe(VNorm(k.v), g.tol), {"C31"}, "comes to rest")
       [] g.kind = "head"  -> Cl(NearAngle(Yaw(k.q), g.y, g.tol), {"C31"}, "heading reached")
       [] g.kind = "vel"   -> Cl(FLe(off(k.v, g.p), g.tol), {"C31"}, "velocity reached")
       [] g.kind = "rate"  -> Cl(FLe(off(k.w, g.p), g.tol), {"C31"}, "body rates reached")
       [] g.kind = "turn"  -> Cl(FLe(FAbs(k.w[3] (-) g.y), g.tol), {"C31"}, "turns at the commanded rate")
       [] g.kind = "land"  -> Cl(Near(k.p[3], s.fh, g.tol) /\ FLe(VNorm(k.v), g.tol) /\ FLe(VNorm(k.w), g.tol), {"C31"}, "comes to rest on the floor")

SimEv(o, e) ==
  LET s == o.s  a == e.a  op == e.op  ob == e.s  rel == o.rel  seen == o.seen
      sob == Strip("sim", ob)
      AllBut(x) == SimFields \ x
      ref(s2, names) == Ret([SimSee(s2, ob) EXCEPT !.fc = s.fc], SetRef(s2, sob, seen, names, SimT))
      cmd(s2, b, c) == RetC(SimSee(s2, ob), b, c)
  IN CASE op = "uc" -> SimUc(o, s, a.dt, sob, rel)
       [] op = "ud" -> IF FLe(a.dt, F0)
                       THEN RetC(s, Cl(e.x = "invalid_argument", {"C10"}, "bad step accepted")
                                    \cup Cl(sob = seen, {"C10"}, "bad step changed the simulator"), {"bad step"})
                       ELSE SimUd(o, s, a.dt, sob, rel)
       [] op = "ui" -> SimUi(o, s, a.dt, sob, rel)
       [] op = "uo" -> SimUo(o, s, a.dt, sob, rel)
       [] op = "fly" -> SimFly(o, s, sob, rel)
       [] op = "arm" -> LET x == Arm(s) IN
            cmd(x, Cl(ob.armed, SimT, "armed") \cup Kept(sob, seen, AllBut({"armed", "r"}), SimT \cup {"C01"})
                   \cup Cl(Near(x.r.thr, ob.r.thr, FRat(1, 10000000)) /\ VSame(x.r.rat, ob.r.rat) /\ VSame(x.r.pos, ob.r.pos), SimT, "references set by arming")
                   \cup KeptR(sob, seen, RefNames \ {"thr", "rat", "pos"}, SimT), {"arm"})
       [] op = "disarm" -> cmd(Disarm(s), Cl(~ob.armed, {"C01", "C04"}, "disarmed") \cup Cl(VIsZero(ob.act), {"C01"}, "command after disarming")
                   \cup Kept(sob, seen, AllBut({"armed", "act"}), SimT), {"disarm"})
       [] op = "floor" -> LET x == EnableFloor(s, a.h) IN
            cmd(x, Cl(ob.fe /\ FEq(ob.fh, a.h) /\ VIsZero(ob.ext), SimT, "floor enabled") \cup Kept(sob, seen, AllBut({"fe", "fh", "ext"}), SimT), {"floor on"})
       [] op = "floor0" -> LET x == EnableFloor(s, F0) IN
            cmd(x, Cl(ob.fe /\ FEq(ob.fh, F0) /\ VIsZero(ob.ext), SimT, "floor enabled") \cup Kept(sob, seen, AllBut({"fe", "fh", "ext"}), SimT), {"floor on"})
       [] op = "nofloor" -> cmd(DisableFloor(s), Cl(~ob.fe /\ VIsZero(ob.ext), {"C04", "C06"}, "floor disabled") \cup Kept(sob, seen, AllBut({"fe", "ext"}), SimT), {"floor off"})
       [] op \in {"mode", "mode1"} ->
            LET ym == IF op = "mode" THEN a.y ELSE ANGLE
                x == SetMode(s, a.m, ym)
                same == s.mode = a.m /\ s.ym = ym
            IN cmd(x, IF same THEN Cl(sob = seen, {"C03"}, "selecting the active mode changed something")
                      ELSE Cl(ob.mode = a.m /\ ob.ym = ym, {"C03"}, "mode selected")
                           \cup Kept(sob, seen, AllBut({"mode", "ym", "r"}), {"C03"}) \cup KeptR(sob, seen, {"mw", "yr"}, {"C03"})
                           \cup Cl(VSame(x.r.pos, ob.r.pos), {"C03"}, "position latched") \cup Cl(NearAngle(x.r.yaw, ob.r.yaw, rel (\X) FInt(10)), {"C03"}, "heading latched")
                           \cup Cl(VIsZero(ob.r.vel) /\ VIsZero(ob.r.acc) /\ VIsZero(ob.r.rat) /\ FEq(ob.r.thr, F0), {"C03"}, "other references zeroed"),
                   IF same THEN {"same mode"} ELSE {"mode switch"})
       [] op = "rmw"   -> ref(RefMotors(s, a.v), {"mw"})
       [] op = "racro" -> ref(RefAcro(s, a.t, a.w), {"thr", "rat"})
       [] op = "rtraj" -> ref(RefTraj(s, a.p, a.v, a.a), {"pos", "vel", "acc"})
       [] op = "rvel"  -> ref(RefVel(s, a.v), {"vel"})
       [] op = "rpos"  -> ref(RefPos(s, a.v), {"pos"})
       [] op = "ryaw"  -> ref(RefYaw(s, a.v), {"yaw"})
       [] op = "ryr"   -> ref(RefYawRate(s, a.v), {"yr"})
       [] op = "pdyn"  -> [Ret([SimSee(s, ob) EXCEPT !.m = Derive(a.p.model), !.fc = s.fc],
                               Cl(StSame(a.p.st, ob.st), {"C27"}, "state replaced") \cup Kept(sob, seen, AllBut({"st", "mo"}), {"C27"})) EXCEPT !.upd = TRUE]
       [] op = "pctl"  -> Ret([SimSee(s, ob) EXCEPT !.ctl = CtlSee(CtlNew(o.n, s.ctl.rp.eps, a.p), ob.ctl)], Kept(sob, seen, AllBut({"ctl"}), {"C27"}))
       [] op = "pimu"  -> [Ret([SimSee(s, ob) EXCEPT !.imu = ImuSee(ImuStart(a.p, ob.imu.gb, ob.imu.ab), ob.imu)],
                              Kept(sob, seen, AllBut({"imu"}), {"C27"}) \cup ImuNewBad(a.p, ob.imu)
                              \cup Cl(FEq(ob.imu.gv, a.p.gv) /\ FEq(ob.imu.av, a.p.av), {"C27"}, "sensor parameters read back"))
                           EXCEPT !.z = IF FEq(a.p.gv, F0) \/ FEq(a.p.av, F0) THEN <<>>
                                        ELSE Explain(FSqrt(a.p.gv), ob.imu.gb) \o Explain(FSqrt(a.p.av), ob.imu.ab)]
       [] op = "podo"  -> LET x == OdoNew(a.p.al, a.p.q0) IN
                          Ret([SimSee(s, ob) EXCEPT !.odo = OdoSee(x, ob.odo)], Kept(sob, seen, AllBut({"odo"}), {"C27"}) \cup Cl(OdoIs(x, ob.odo, rel), {"C25", "C27"}, "odometry rebuilt"))
       [] op = "csvo"  -> Ret(s, OdoRow(ob.odo, e.rt, rel))
       [] op = "printo" -> Ret(s, OdoPrint(ob.odo, e.rt, rel))
       [] op = "print" -> Ret(s, StatePrint(ob.st, o.n, e.rt, rel))
       [] op = "csv"   -> Ret(s, StateRow(ob.st, o.n, e.rt, rel))
       [] op \in {"setst", "setstp"} -> Ret(SimSee(s, ob), Cl(StSame(a.st, ob.st), {"C27"}, "state set") \cup Kept(sob, seen, AllBut({"st"}), {"C28"}))
       [] op = "mupd"  -> LET r == ModelEv(s.m, op, a, ob.mo, e.rt, seen.mo, o.n, rel)
                          IN [r EXCEPT !.s = [s EXCEPT !.m = r.s], !.upd = TRUE, !.bad = @ \cup Kept(sob, seen, AllBut({"mo"}), {"C14"})]
       [] op = "ctl:"  -> LET r == CtlEv(s.ctl, a.op, a.a, sob.ctl, seen.ctl, e.rt, rel, o.dirty)
                          IN [r EXCEPT !.s = [s EXCEPT !.ctl = r.s], !.bad = @ \cup Kept(sob, seen, AllBut({"ctl"}), {"C27"})]
       [] op = "imu:"  -> LET r == ImuEv(s.imu, a.op, a.a, ob.imu, seen.imu, rel)
                          IN [r EXCEPT !.s = [s EXCEPT !.imu = r.s], !.bad = @ \cup Kept(sob, seen, AllBut({"imu"}), {"C27"})]
       [] op = "odo:"  -> LET r == OdoEv(s.odo, a.op, a.a, ob.odo, seen.odo, e.rt, rel)
                          IN [r EXCEPT !.s = [s EXCEPT !.odo = r.s], !.bad = @ \cup Kept(sob, seen, AllBut({"odo"}), {"C27"})]

-----------------------------------------------------------------------------
(* construction *)
Eps(e) == IF e.f THEN EpsF ELSE EpsD
New(e) ==
  LET a == e.a IN
  CASE e.k = "pid"   -> PidSee(PidNew(e.n, Eps(e), a.p), e.s)
    [] e.k = "imu"   -> ImuSee(ImuStart(a.p, e.s.gb, e.s.ab), e.s)
    [] e.k = "odo"   -> OdoNew(a.p.al, a.p.q0)
    [] e.k = "model" -> Derive(a.p.model)
    [] e.k = "dyn"   -> [m |-> Derive(a.p.model), st |-> a.p.st]
    [] e.k = "ctl"   -> CtlNew(e.n, Eps(e), a.p)
    [] e.k = "sim"   -> SimNew(e.n, Eps(e), a.p, e.s.imu.gb, e.s.imu.ab)
CtlNewBad(ob) == Cl(VIsZero(ob.mot), {"C01", "C02"}, "initial motor command")
Quiet(mo) == Cl(VIsZero(mo.nf) /\ VIsZero(mo.nm), {"C15"}, "noise before the first step")
CtlBlank(c) ==
  Cl(VIsZero(c.ar) /\ VIsZero(c.drat) /\ VIsZero(c.tq) /\ VIsZero(c.th) /\ FEq(c.dthr, F0) /\ VIsZero(c.imot) /\ VIsZero(c.mot), {"C23"}, "reports before the first update")
  \cup Cl(VIsZero(c.dpos) /\ VIsZero(c.dvel) /\ VIsZero(c.dacc), {"C22"}, "reports before the first update")
NewBad(e, s, rel) ==
  LET a == e.a  ob == e.s IN
  CASE e.k = "pid" -> Cl(VIsZero(ob.e) /\ VIsZero(ob.P) /\ VIsZero(ob.I) /\ VIsZero(ob.D) /\ VIsZero(ob.out), {"C16", "C19"}, "reports before the first call")
    [] e.k = "imu" -> ImuNewBad(a.p, ob) \cup Cl(FEq(ob.gv, a.p.gv) /\ FEq(ob.av, a.p.av), {"C27"}, "sensor parameters read back")
    [] e.k = "odo" -> Cl(OdoIs(s, ob, rel), {"C25"}, "initial odometry")
    [] e.k = "dyn" -> Cl(StSame(s.st, ob), {"C27"}, "initial state") \cup Quiet(ob.mo)
    [] e.k = "model" -> Quiet(ob)
    [] e.k = "ctl" -> CtlBlank(ob)
    [] e.k = "sim" -> Cl(StSame(s.st, ob.st), {"C27"}, "initial state") \cup ImuNewBad(a.p.imu, ob.imu)
                      \cup Cl(FEq(ob.imu.gv, a.p.imu.gv) /\ FEq(ob.imu.av, a.p.imu.av), {"C27"}, "sensor parameters read back")
                      \cup Cl(OdoIs(s.odo, ob.odo, rel), {"C25"}, "initial odometry")
                      \cup Cl(~ob.armed /\ VIsZero(ob.act), {"C01"}, "starts disarmed")
                      \cup Cl(~ob.fe /\ VIsZero(ob.ext), {"C06"}, "starts without floor")
                      \cup Quiet(ob.mo) \cup CtlBlank(ob.ctl)
    [] OTHER -> {}
(* observations that carry parameters *)
FullBad(o, s, ob) ==
  CASE o.k = "pid"   -> PidParBad(s, ob.par)
    [] o.k = "model" -> ModelFullBad(s, ob, o.n, o.rel, {"C14"})
    [] o.k = "dyn"   -> ModelFullBad(s.m, ob.mo, o.n, o.rel, {"C14"})
    [] o.k = "ctl"   -> CtlFullBad(s, ob)
    [] o.k = "sim"   -> ModelFullBad(s.m, ob.mo, o.n, o.rel, {"C14", "C27"}) \cup CtlFullBad(s.ctl, ob.ctl)
    [] OTHER         -> {}
(* exceptions are part of the interface only for a non-positive dynamics step *)
MayThrow(e) == e.op \in {"ud", "step"} /\ FLe(e.a.dt, F0)
ThrowTags(o, e) == CASE e.op = "ud" \/ e.op = "step" -> {"C10"} [] e.op = "uc" -> {"C02"}
                     [] o.k = "pid" -> {"C16"} [] o.k = "ctl" -> {"C22"} [] o.k = "imu" -> {"C24"} [] o.k = "odo" -> {"C25"}
                     [] o.k = "model" -> {"C14"} [] OTHER -> {"C04", "C27"}
Invariants(o, e, ob) ==
  IF o.k = "sim" THEN Cl(ob.armed \/ VIsZero(ob.act), {"C01"}, "command while disarmed")
                      \cup Cl(e.op \in {"uc", "fly"} \/ VIsZero(ob.act) \/ VSame(ob.act, o.seen.act), {"C01"}, "command not from an update") ELSE {}
(* loops whose parameters changed since they last ran *)
CtlDirty(d, op, a) ==
  IF op = "loop" THEN (IF a.op = "reset" THEN d ELSE d \cup {a.loop})
  ELSE IF op = "creset" THEN d
  ELSE IF op \in CtlParamOps THEN Loops \cup {"acro", "indi"} ELSE d \ Ran(op)
Dirty(o, e) ==
  CASE o.k = "pid" -> IF e.op \in {"c2", "c3"} THEN {} ELSE IF e.op \in PidSetOps \ {"reset"} THEN {"rp"} ELSE o.dirty
    [] o.k = "ctl" -> CtlDirty(o.dirty, e.op, e.a)
    [] o.k = "sim" -> IF e.op = "pctl" THEN Loops \cup {"acro", "indi"}
                      ELSE IF e.op = "ctl:" THEN CtlDirty(o.dirty, e.a.op, e.a.a)
                      ELSE IF e.op = "uc" /\ o.s.armed /\ o.s.mode # MOTOR_W THEN o.dirty \ Ran(ModeOp(o.s)) ELSE o.dirty
    [] OTHER -> {}

Also(b, c, tag) == IF c THEN b \cup {<<tag, x[2]>> : x \in b} ELSE b
Dispatch(o, e) ==
  CASE e.op = "nop" -> Ret(o.s, Cl(Strip(o.k, e.s) = o.seen /\ ((e.fu /\ e.again) => e.s = o.full), {"C28"}, "reading changed the object, or another object did"))
    [] o.k = "pid"   -> PidEv(o, e)
    [] o.k = "imu"   -> ImuEv(o.s, e.op, e.a, e.s, o.seen, o.rel)
    [] o.k = "odo"   -> OdoEv(o.s, e.op, e.a, e.s, o.seen, e.rt, o.rel)
    [] o.k = "model" -> LET r == ModelEv(o.s, e.op, e.a, e.s, e.rt, o.seen, o.n, o.rel)
                        IN [r EXCEPT !.bad = @ \cup Cl(e.op \in {"noise", "nonoise"} \/ Strip("model", e.s) = o.seen, {"C15", "C28"}, "noise changed")]
    [] o.k = "dyn"   -> DynEv(o, e)
    [] o.k = "ctl"   -> CtlEv(o.s, e.op, e.a, StripCtl(e.s), o.seen, e.rt, o.rel, o.dirty)
    [] o.k = "sim"   -> SimEv(o, e)

(* flight tracking of the noise-free odometry (C26): first-order error bounds
   eA (attitude), eV, eP accumulate along the flight *)
TrkStart(o) == [on |-> TRUE, p0 |-> o.seen.st.p, v0 |-> o.seen.st.v, eA |-> F0, eV |-> F0, eP |-> F0]
TrkStep(trk, s0, s1, op, dt) ==     \* s0, s1: vehicle before and after the call
  IF ~trk.on \/ op # "ud" THEN trk
  ELSE LET aa == VNorm(s1.st.a)
           eV == trk.eV (+) (dt (\X) (aa (\X) (trk.eA (+) (dt (\X) VNorm(s0.st.w)))))
       IN [trk EXCEPT !.eA = @ (+) (dt (\X) VNorm(VSub(s1.st.w, s0.st.w))), !.eV = eV,
                      !.p0 = VAdd(@, VScale(dt, trk.v0)), \* moves on with the initial velocity
                      !.eP = @ (+) ((dt (\X) eV) (+) (dt (\X) (dt (\X) aa)))]
TrkBad(trk, s, op) ==
  IF ~trk.on \/ op # "uo" THEN {}
  ELSE LET k(x) == (FRat(11, 10) (\X) x) (+) FRat(1, 10000000)
       IN Cl(FLe(FMin(VNorm(VSub(s.odo.q, s.st.q)), VNorm(VAdd(s.odo.q, s.st.q))), k(trk.eA)), {"C26"}, "orientation follows the vehicle")
          \cup Cl(FLe(VNorm(VSub(s.odo.v, VSub(s.st.v, trk.v0))), k(trk.eV)), {"C26"}, "velocity follows the vehicle")
          \cup Cl(FLe(VNorm(VSub(s.odo.p, VSub(s.st.p, trk.p0))), k(trk.eP)), {"C26"}, "displacement follows the vehicle")

-----------------------------------------------------------------------------
(* relations between objects *)
RECURSIVE At(_, _)
At(r, path) == IF path = <<>> THEN r ELSE At(r[Head(path)], Tail(path))
RelBad(e) ==
  LET x == obj[e.x] IN
  CASE e.rel = "same"  -> LET y == obj[e.y] IN Cl(x.seen = y.seen, {IF "tag" \in DOMAIN e THEN e.tag ELSE "C28"} \cup x.ex, "equal objects, equal calls, different outcome")
    [] e.rel = "fresh" -> LET y == obj[e.y] IN
                          UNION {Cl(At(x.seen, e.f[i]) = At(y.seen, e.f[i]), {"C19"} \cup x.ex, "reset differs from fresh: " \o ToString(e.f[i])) : i \in 1..Len(e.f)}
    [] e.rel = "axes"  -> UNION {Cl(\A i \in 1..Len(e.ys) : Near(x.seen[f][i], obj[e.ys[i]].seen[f][1], x.rel),
                                    {"C20"} \cup x.ex, "axis differs from scalar: " \o f) : f \in {"e", "P", "I", "D", "out"}}
    [] e.rel = "zseq"  -> LET y == obj[e.y] IN Cl(VNear(x.z, y.z, IF x.flt THEN FRat(1, 50) ELSE FRat(1, 1000000)), {e.tag} \cup x.ex, "sample sequence not fixed by the seed")
    [] e.rel = "zdiff" -> LET y == obj[e.y] IN Cl(~VNear(x.z, y.z, FRat(1, 1000)), {e.tag} \cup x.ex, "samples independent of the seed")
    [] e.rel = "goal"  -> GoalBad(x.s, e.g)
    [] e.rel = "stat"  -> StatBad(x.sta, {e.tag} \cup x.ex)
    [] OTHER -> {}

-----------------------------------------------------------------------------
Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ obj = <<>> /\ bad = {} /\ kn = {} /\ cov = {}

Put(f, id, r) == [x \in DOMAIN f \cup {id} |-> IF x = id THEN r ELSE f[x]]
Ex(o, b) == b \cup (IF b = {} THEN {} ELSE {<<g, c[2]>> : g \in o.ex, c \in b})

(* complete an event whose caller left something unset *)
Unsets(e) == "unset" \in DOMAIN e
Given(e)  == IF ~Unsets(e) THEN e
             ELSE IF e.op = "new" THEN [e EXCEPT !.a = [p |-> TLCEval(FillNew(e.k, e.n, Part(e.a, "p")))]]
             ELSE [e EXCEPT !.a = TLCEval(FillCall(obj[e.o].k, obj[e.o].n, e.op, e.a))]
(* what goes wrong at such an event decides C32 too *)
Un(e, b)  == Also(b, Unsets(e), "C32")

Create(e) ==
  LET s == TLCEval(New(e))
      o == NewObj(e, s)
  IN /\ obj' = Put(obj, e.o, o)
     /\ bad' = bad \cup Ex(o, Un(e, NewBad(e, s, o.rel) \cup FullBad(o, s, e.s)) \cup Cl(e.alt = <<>>, {"C28"}, "getter forms disagree: " \o ToString(e.alt)))
     /\ UNCHANGED <<kn, cov>>
Duplicate(e) ==
  LET src == obj[e.a.src] IN
  /\ obj' = Put(obj, e.o, [src EXCEPT !.seen = Strip(src.k, e.s), !.full = e.s])
  /\ bad' = bad \cup Ex(src, Cl(e.s = src.full, {"C28"}, "a copy differs from its original"))
  /\ UNCHANGED <<kn, cov>>
Call(e) ==
  LET o == obj[e.o]
      r == IF e.x = "" \/ MayThrow(e) THEN Dispatch(o, e) ELSE Ret(o.s, {})
      s == TLCEval(r.s)
      thr == Cl(e.x = "" \/ MayThrow(e), ThrowTags(o, e), "unexpected exception")
      trk == IF o.k = "sim" THEN TrkStep(o.trk, o.s, s, e.op, IF o.trk.on /\ e.op = "ud" THEN e.a.dt ELSE F0) ELSE o.trk
      b == Un(e, r.bad \cup thr) \cup (IF e.fu THEN Un(e, Also(FullBad(o, s, e.s), e.op \in {"reset", "creset"}, "C19")) ELSE {}) \cup Invariants(o, e, e.s)
           \cup Cl(e.alt = <<>>, {"C28"}, "getter forms disagree: " \o ToString(e.alt))
           \cup (IF o.k = "sim" THEN TrkBad(trk, s, e.op) ELSE {})
  IN /\ obj' = [obj EXCEPT ![e.o] =
                  [o EXCEPT !.s = s, !.seen = Strip(o.k, e.s), !.full = IF e.fu THEN e.s ELSE o.full,
                            !.z = IF r.z = <<>> THEN o.z ELSE r.z,
                            !.sta = IF o.stat /\ r.z # <<>> THEN StatAdd(o.sta, r.z) ELSE o.sta,
                            !.upd = o.upd \/ r.upd, !.dirty = Dirty(o, e), !.trk = trk]]
     /\ bad' = bad \cup Ex(o, b)
     /\ kn' = kn \cup r.kn
     /\ cov' = cov \cup r.cov
Relate(e) ==
  /\ bad' = bad \cup RelBad(e)
  /\ obj' = IF e.rel = "track" THEN [obj EXCEPT ![e.x].trk = TrkStart(obj[e.x])] ELSE obj
  /\ UNCHANGED <<kn, cov>>

Next ==
  /\ l < Len(Traces[t])
  /\ l' = l + 1 /\ t' = t
  /\ LET e == Given(Traces[t][l + 1]) IN
     CASE e.op = "new" -> Create(e)
       [] e.op \in {"copy", "assign"} -> Duplicate(e)
       [] e.op = "R" -> Relate(e)
       [] OTHER -> Call(e)
  /\ (kn' # kn => PrintT(<<"KNOWN", kn'>>))
  /\ (l' = Len(Traces[t]) => PrintT(<<"COV", cov'>>))

Spec == Init /\ [][Next]_vars

NoViolation == ~\E b \in bad : b[1] = Prop \/ Prop = "ANY"
Where == [trace |-> t, event |-> l, bad |-> {b \in bad : b[1] = Prop \/ Prop = "ANY"}]
View == <<t, l>>
================================================================================
