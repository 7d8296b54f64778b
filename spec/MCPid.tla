--------------------------------- MODULE MCPid ---------------------------------
(***************************************************************************)
(* Model checking of the PID specification and the walks for the real PID. *)
(*                                                                         *)
(* A two-axis PID runs in lockstep with two scalar PIDs (C20) and, since   *)
(* the last reset, with a freshly built PID given the same calls (C19).    *)
(* The error history since the last restart is kept so that the law can be *)
(* stated without the accumulators (C16).                                  *)
(***************************************************************************)
EXTENDS Pid, Json, IOUtils, FiniteSets

Emit  == IOEnv.EMIT = "1"
Depth == atoi(IOEnv.DEPTH)
Eps   == FRat(1, 1073741824) (\X) FRat(1, 4194304)
Rel   == FRat(1, 1000000000)

VARIABLES k, p, a, b, f, hist, h
vars == <<k, p, a, b, f, hist, h>>

R2(x, y) == <<FRat(x, 8), FRat(y, 8)>>
Par(kp, ki, kd, aw, al, ri, prop, up, lo) ==
  [kp |-> kp, ki |-> ki, kd |-> kd, aw |-> aw, al |-> al, ri |-> ri, prop |-> prop, up |-> up, lo |-> lo]
Params == <<
  Par(R2(16, 8), R2(8, 4), R2(2, 4), R2(0, 0), R2(8, 4), FALSE, FALSE, R2(0, 0), R2(0, 0)),
  Par(R2(16, 8), R2(8, 4), R2(2, 4), R2(6, 10), R2(4, 2), TRUE, FALSE, R2(20, 12), R2(-9, -30)),
  Par(R2(8, 24), R2(16, 8), R2(1, 1), R2(8, 3), R2(8, 8), FALSE, TRUE, R2(16, 10), R2(-24, -14)),
  Par(R2(8, 8), R2(24, 8), R2(4, 0), R2(5, 5), R2(0, 6), TRUE, FALSE, R2(40, 9), R2(-40, 3)) >>
C(op, x) == [op |-> op, a |-> x]
none == [x |-> 0]
Alphabet == <<
  C("c2", [dt |-> FRat(1, 4), e |-> R2(8, -6)]), C("c2", [dt |-> FRat(1, 4), e |-> R2(-8, -6)]),
  C("c2", [dt |-> FRat(1, 2), e |-> R2(12, 20)]), C("c2", [dt |-> FRat(1, 8), e |-> R2(-1, 3)]),
  C("c3", [dt |-> FRat(1, 4), e |-> R2(-10, 5), de |-> R2(3, -7)]),
  C("reset", none),
  C("skp", [v |-> R2(4, 12)]), C("ski", [v |-> R2(2, 32)]), C("skd", [v |-> R2(6, 3)]),
  C("saw", [v |-> R2(3, 7)]), C("saw", [v |-> R2(0, 0)]), C("sal", [v |-> R2(1, 7)]),
  C("sri", [b |-> TRUE]), C("sri", [b |-> FALSE]),
  C("slim", [up |-> R2(10, 18), lo |-> R2(-16, -4), b |-> FALSE]), C("slim", [up |-> R2(10, 18), lo |-> R2(-16, -4), b |-> TRUE]),
  C("slim", [up |-> R2(10, -4), lo |-> R2(-16, -4), b |-> FALSE]), C("dlim", none),
  C("upd", [p |-> Params[1]]), C("upd", [p |-> Params[2]]), C("upd", [p |-> Params[3]]), C("upd", [p |-> Params[4]]) >>
Axis(x, i) == [y \in DOMAIN x |-> IF y \in {"e", "de", "v", "up", "lo", "kp", "ki", "kd", "aw", "al"} THEN <<x[y][i]>> ELSE x[y]]
AxisC(c, i) == IF c.op = "upd" THEN [c EXCEPT !.a.p = [Axis(c.a.p, i) EXCEPT !.prop = FALSE]]
               ELSE [c EXCEPT !.a = IF c.op = "slim" THEN [Axis(c.a, i) EXCEPT !.b = FALSE] ELSE Axis(c.a, i)]
Do(x, c) ==
  LET y == c.a IN
  CASE c.op = "c2" -> PidCompute(x, y.dt, y.e)
    [] c.op = "c3" -> PidComputeD(x, y.dt, y.e, y.de)
    [] c.op = "reset" -> PidReset(x)
    [] c.op = "skp" -> [x EXCEPT !.kp = y.v]
    [] c.op = "ski" -> [x EXCEPT !.ki = y.v]
    [] c.op = "skd" -> [x EXCEPT !.kd = y.v]
    [] c.op = "saw" -> [x EXCEPT !.aw = y.v]
    [] c.op = "sal" -> [x EXCEPT !.al = y.v]
    [] c.op = "sri" -> [x EXCEPT !.ri = y.b]
    [] c.op = "slim" -> PidSetLimits(x, y.up, y.lo, y.b)
    [] c.op = "dlim" -> PidDisableLimits(x)
    [] c.op = "upd" -> PidUpdate(x, y.p)
Calls == {"c2", "c3"}
(* a PID as newly built with the parameters of x *)
Anew(x) == [x EXCEPT !.first = TRUE, !.acc = VZero(x.n), !.filt = VZero(x.n), !.e = VZero(x.n), !.de = VZero(x.n),
                     !.P = VZero(x.n), !.I = VZero(x.n), !.D = VZero(x.n), !.out = VZero(x.n)]
Pars == {"kp", "ki", "kd", "aw", "al", "ri", "sat", "prop", "up", "lo"}
Mem  == {"first", "acc", "filt", "e"}

-----------------------------------------------------------------------------
(* C16: with no anti-windup in the history, the integral is the sum of
   error-time and the derivative the exponentially weighted sum of rates *)
RECURSIVE SumET(_, _)
SumET(hs, i) == IF i = 0 THEN VZero(2) ELSE VAdd(SumET(hs, i-1), VScale(hs[i].dt, hs[i].e))
P16(x, c, y, hs) == c.op \in Calls =>
  /\ VNear(y.P, VMul(y.kp, c.a.e), Rel)
  /\ (\A i \in 1..Len(hs) : hs[i].free) => VNear(y.I, VMul(y.ki, SumET(hs, Len(hs))), Rel)
  /\ c.op = "c3" => VNear(y.D, VMul(y.kd, c.a.de), Rel)
  /\ (c.op = "c2" /\ Len(hs) = 1) => VIsZero(y.D)
  /\ (c.op = "c2" /\ Len(hs) > 1 /\ y.al = VOnes(2)) => VNear(y.D, VMul(y.kd, VScale(F1 (/) c.a.dt, VSub(c.a.e, hs[Len(hs)-1].e))), Rel)
  /\ ~y.sat => VNear(y.out, VAdd(VAdd(y.P, y.I), y.D), Rel)
P17(x, c, y) == (c.op \in Calls /\ y.sat) =>
  LET raw == VAdd(VAdd(y.P, y.I), y.D) IN
  IF ~y.prop
  THEN Within(y.out, y.lo, y.up, Rel) /\ \A i \in 1..2 : (FLe(y.lo[i], raw[i]) /\ FLe(raw[i], y.up[i])) => FEq(y.out[i], raw[i])
  ELSE (\A i \in 1..2 : FLt(y.lo[i], F0) /\ FLt(F0, y.up[i])) =>
         /\ Within(y.out, y.lo, y.up, Rel)
         /\ Near(y.out[1] (\X) raw[2], y.out[2] (\X) raw[1], Rel)         \* same direction
         /\ FLe(F0, VDot(y.out, raw))
         /\ Within(raw, y.lo, y.up, F0) => VNear(y.out, raw, Rel)
         /\ ~Within(raw, y.lo, y.up, F0) =>                                \* largest factor: some limit is met
              \E i \in 1..2 : Near(y.out[i], y.up[i], Rel) \/ Near(y.out[i], y.lo[i], Rel)
P17b(x, c, y) == /\ c.op = "slim" => (y.sat <=> \A i \in 1..2 : FLt(c.a.lo[i], c.a.up[i]))
                 /\ c.op = "dlim" => ~y.sat
P18(x, c, y) == c.op \in Calls =>
  /\ ~VIsZero(y.aw) => Within(y.acc, VNeg(y.aw), y.aw, Rel)
  /\ (x.ri /\ ~x.first /\ \A i \in 1..2 : FLt(F0, x.aw[i])) => \A i \in 1..2 :
       LET opp == FLt(x.acc[i] (\X) c.a.e[i], F0)  full == FLe(x.aw[i], FAbs(x.acc[i]))  de == c.a.dt (\X) c.a.e[i] IN
       (opp /\ full) => Near(y.acc[i], FMax(FNeg(x.aw[i]), FMin(x.aw[i], de)), Rel)
P19(c, y, g) == c.op \in Calls => /\ y.out = g.out /\ y.P = g.P /\ y.I = g.I /\ y.D = g.D /\ y.e = g.e
P20(c, y, a1, b1) == /\ ~(y.prop /\ y.sat) /\ (VIsZero(y.aw) \/ \A i \in 1..2 : ~FEq(y.aw[i], F0)) =>
                         (c.op \in Calls => \A x \in {"out", "P", "I", "D", "e"} : y[x] = <<a1[x][1], b1[x][1]>>)
P27(x, c, y) == /\ c.op \notin Calls \cup {"reset"} => \A m \in Mem \cup {"P", "I", "D", "out", "de"} : x[m] = y[m]
                /\ c.op \in Calls \cup {"reset"} => \A m \in Pars : x[m] = y[m]
Ok(c, hs) ==
  /\ Assert(P16(p, c, p', hs), <<"C16", h, c>>) /\ Assert(P17(p, c, p'), <<"C17", h, c>>) /\ Assert(P17b(p, c, p'), <<"C17", h, c>>)
  /\ Assert(P18(p, c, p'), <<"C18", h, c>>) /\ Assert(P19(c, p', f'), <<"C19", h, c>>)
  /\ Assert(P20(c, p', a', b'), <<"C20", h, c>>) /\ Assert(P27(p, c, p'), <<"C27", h, c>>)

-----------------------------------------------------------------------------
AxisPar(x, i) == [Axis(x, i) EXCEPT !.prop = FALSE]
Init == /\ k \in 1..Len(Params)
        /\ p = PidNew(2, Eps, Params[k]) /\ f = p
        /\ a = PidNew(1, Eps, AxisPar(Params[k], 1)) /\ b = PidNew(1, Eps, AxisPar(Params[k], 2))
        /\ hist = <<>> /\ h = <<>>
(* limits of the scalar PIDs are judged per axis: keep them aligned with the vector PID *)
Align(x, y) == IF y.sat # x.sat THEN PidDisableLimits(x) ELSE x
Next == /\ Len(h) < Depth /\ k' = k
        /\ \E i \in 1..Len(Alphabet) :
             LET c == Alphabet[i] IN
             /\ p' = TLCEval(Do(p, c))
             /\ f' = IF c.op = "reset" THEN Anew(p') ELSE TLCEval(Do(f, c))
             /\ a' = TLCEval(LET x == Do(a, AxisC(c, 1)) IN IF ~p'.sat THEN PidDisableLimits(x) ELSE x)
             /\ b' = TLCEval(LET x == Do(b, AxisC(c, 2)) IN IF ~p'.sat THEN PidDisableLimits(x) ELSE x)
             /\ hist' = IF c.op = "reset" THEN <<>>
                        ELSE IF c.op \in Calls THEN Append(IF p.first THEN <<>> ELSE hist, [dt |-> c.a.dt, e |-> c.a.e, free |-> VIsZero(p.aw) /\ ~p.ri])
                        ELSE hist
             /\ h' = Append(h, i)
             /\ Ok(c, hist')
             /\ (Emit => PrintT(<<"W", k, h'>>))
Spec == Init /\ [][Next]_vars
(* situations: memory relative to the limits, and the parameters' shape *)
Lvl(x, i) == IF FEq(x.acc[i], F0) THEN 0 ELSE (IF FSignBit(x.acc[i]) THEN -1 ELSE 1) * (IF ~FEq(x.aw[i], F0) /\ FLe(x.aw[i], FAbs(x.acc[i])) THEN 2 ELSE 1)
Cut(x, i) == IF ~x.sat THEN 0 ELSE IF FLe(x.up[i], x.out[i]) THEN 1 ELSE IF FLe(x.out[i], x.lo[i]) THEN -1 ELSE 0
View == <<k, p.first, p.sat, p.sat /\ p.prop, p.ri, VIsZero(p.aw), Lvl(p, 1), Lvl(p, 2), Cut(p, 1), Cut(p, 2), VIsZero(p.filt),
          IF IOEnv.FINE = "1" THEN <<p.kp, p.ki, p.kd, p.aw, p.al>> ELSE <<>> >>
ASSUME Emit => PrintT(<<"ALPHABET", ToJson(Alphabet)>>)
ASSUME Emit => PrintT(<<"PARAMS", ToJson(Params)>>)
================================================================================
