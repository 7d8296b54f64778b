--------------------------------- MODULE Model ---------------------------------
(***************************************************************************)
(* Vehicle parameters, their validation, and the mixers derived from them. *)
(* A rotor: [dir, kt, kq, pos, rot, mn, mx, tau, J].  Parameters:          *)
(* [motors, mass, J, cd, aero, g, sF, sM].                                 *)
(***************************************************************************)
EXTENDS Lin

RotorOk(r) == /\ FLe(r.mn, r.mx) /\ FLe(F0, r.tau) /\ FLe(F0, r.J)
              /\ FLe(F0, r.kt)   /\ FLe(F0, r.kq)
ParamsOk(p) == /\ FLe(F0, p.mass) /\ FLe(F0, Det3(p.J)) /\ FLe(F0, p.cd)
               /\ FLe(F0, Det3(p.aero))
               /\ \A i \in 1..Len(p.motors) : RotorOk(p.motors[i])

(* columns contributed by one rotor *)
FDir(r)   == FInt(r.dir)
RForce(r)   == MVec(r.rot, <<F0, F0, r.kt>>)
RTorque(r)  == VAdd(Cross(r.pos, RForce(r)), MVec(r.rot, <<F0, F0, FDir(r) (\X) r.kq>>))
RInertia(r) == MVec(r.rot, <<F0, F0, FDir(r) (\X) r.J>>)

(* 3 x N mixers *)
MixF(ms) == MT(TLCEval([i \in 1..Len(ms) |-> RForce(ms[i])]))
MixT(ms) == MT(TLCEval([i \in 1..Len(ms) |-> RTorque(ms[i])]))
MixI(ms) == MT(TLCEval([i \in 1..Len(ms) |-> RInertia(ms[i])]))
(* 4 x N mixer of a flat layout: thrust and torques with rotor tilt ignored *)
Mix4(ms) == MT(TLCEval([i \in 1..Len(ms) |->
              << ms[i].kt, ms[i].pos[2] (\X) ms[i].kt,
                 FNeg(ms[i].pos[1]) (\X) ms[i].kt, FDir(ms[i]) (\X) ms[i].kq >>]))

(* a model: parameters and what is derived from them *)
Derive(p) == [par |-> p, mf |-> MixF(p.motors), mt |-> MixT(p.motors), mi |-> MixI(p.motors),
              mn |-> TLCEval([i \in 1..Len(p.motors) |-> p.motors[i].mn]),
              mx |-> TLCEval([i \in 1..Len(p.motors) |-> p.motors[i].mx]),
              it |-> TLCEval([i \in 1..Len(p.motors) |-> F1 (/) p.motors[i].tau]),
              jinv |-> Inv3(p.J)]
(* rejected updates change nothing *)
ModelUpdate(m, p) == IF ParamsOk(p) THEN Derive(p) ELSE m

(* forces and torques *)
MotorForce(m, w)      == MVec(m.mf, VSqSign(w))
MotorThrust(m, w)     == VDot(m.mf[3], VSqSign(w))
MotorTorque(m, w, dw) == VAdd(MVec(m.mt, VSqSign(w)), MVec(m.mi, dw))
Drag(m, v)            == VScale(FNeg(m.par.cd), VSqSign(v))
AeroMoment(m, w)      == VScale(FNeg(VNorm(w)), MVec(m.par.aero, w))
Weight(m)             == VScale(m.par.mass, m.par.g)

(* preset layouts: rotor positions and alternating spin starting at +1 *)
Alt(i) == IF i % 2 = 1 THEN 1 ELSE -1
LayoutX(x, y)    == << <<x, FNeg(y), F0>>, <<x, y, F0>>, <<FNeg(x), y, F0>>, <<FNeg(x), FNeg(y), F0>> >>
LayoutPlus(x, y) == << <<x, F0, F0>>, <<F0, y, F0>>, <<FNeg(x), F0, F0>>, <<F0, FNeg(y), F0>> >>
LayoutHexa(r)    == LET c == FHalf (\X) r
                        s == (FSqrt(FInt(3)) (/) F2) (\X) r
                    IN << <<r, F0, F0>>, <<c, s, F0>>, <<FNeg(c), s, F0>>,
                          <<FNeg(r), F0, F0>>, <<FNeg(c), FNeg(s), F0>>, <<c, FNeg(s), F0>> >>
================================================================================
