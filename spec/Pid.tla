---------------------------------- MODULE Pid ----------------------------------
(***************************************************************************)
(* The PID controller (vector form; the scalar PID is the one-axis case).  *)
(*                                                                         *)
(* A PID is a record:                                                      *)
(*   parameters  kp ki kd   gains                                          *)
(*               aw         anti-windup limits (all zero: none)            *)
(*               al         derivative filter constants                    *)
(*               ri         restart the integral on error reversal         *)
(*               sat prop   limiting on / proportional; up lo the limits   *)
(*   memory      first      no call since construction or reset            *)
(*               acc        accumulated integral of the error              *)
(*               filt       filtered error rate                            *)
(*               e          last error (also reported)                     *)
(*   report      de P I D out                                              *)
(***************************************************************************)
EXTENDS Lin

LimitsOk(up, lo, eps) ==
  \A i \in 1..Len(up) : /\ FLe(lo[i], up[i])
                        /\ ~FLt(FAbs(up[i] (-) lo[i]), eps)

PidSetLimits(s, up, lo, prop) ==
  IF LimitsOk(up, lo, s.eps)
  THEN [s EXCEPT !.sat = TRUE, !.up = up, !.lo = lo, !.prop = prop]
  ELSE [s EXCEPT !.sat = FALSE]

PidDisableLimits(s) == [s EXCEPT !.sat = FALSE]

(* Replacing the parameters keeps the memory. *)
PidUpdate(s, par) ==
  LET t == [s EXCEPT !.kp = par.kp, !.ki = par.ki, !.kd = par.kd, !.aw = par.aw,
                     !.al = par.al, !.ri = par.ri, !.prop = par.prop]
  IN IF VIsZero(par.up) /\ VIsZero(par.lo)
     THEN PidDisableLimits(t)
     ELSE PidSetLimits(t, par.up, par.lo, par.prop)

(* n axes; eps is the resolution below which two limits count as equal *)
PidNew(n, eps, par) ==
  PidUpdate([n |-> n, eps |-> eps,
             kp |-> VZero(n), ki |-> VZero(n), kd |-> VZero(n), aw |-> VZero(n),
             al |-> VZero(n), ri |-> FALSE, sat |-> FALSE, prop |-> FALSE,
             up |-> VZero(n), lo |-> VZero(n),
             first |-> TRUE, acc |-> VZero(n), filt |-> VZero(n),
             e |-> VZero(n), de |-> VZero(n),
             P |-> VZero(n), I |-> VZero(n), D |-> VZero(n), out |-> VZero(n)], par)

PidReset(s) == [s EXCEPT !.first = TRUE]

(* Largest common factor <= 1 bringing every axis inside its limits. *)
RECURSIVE FactorTo(_, _, _, _)
FactorTo(raw, up, lo, i) ==
  IF i = 0 THEN F1
  ELSE LET f == IF FLt(up[i], raw[i]) THEN up[i] (/) raw[i]
                ELSE IF FLt(raw[i], lo[i]) THEN lo[i] (/) raw[i] ELSE F1
       IN FMin(f, FactorTo(raw, up, lo, i-1))
PropFactor(raw, up, lo) == FactorTo(raw, up, lo, Len(raw))

LimitVec(raw, up, lo, prop) ==
  IF prop THEN VScale(PropFactor(raw, up, lo), raw) ELSE VClamp(raw, lo, up)

(* memory as the call sees it *)
Fresh(s, e) == IF s.first
               THEN [s EXCEPT !.first = FALSE, !.acc = VZero(s.n), !.filt = VZero(s.n), !.e = e]
               ELSE s

(* integral: optional restart of a saturated axis on error reversal, then
   accumulation, then anti-windup *)
Restarted(s, e) ==
  IF ~s.ri THEN s.acc
  ELSE TLCEval([i \in 1..s.n |->
         IF FLe(s.aw[i], FAbs(s.acc[i])) /\ FSignBit(s.acc[i]) # FSignBit(e[i])
         THEN F0 ELSE s.acc[i]])
Accumulated(s, dt, e) ==
  LET acc == VAdd(Restarted(s, e), VScale(dt, e))
  IN IF VIsZero(s.aw) THEN acc ELSE VClamp(acc, VNeg(s.aw), s.aw)

(* common part of both forms of the call; drate is the error rate to use *)
Finish(s, dt, e, drate) ==
  LET acc == Accumulated(s, dt, e)
      p   == VMul(s.kp, e)
      i   == VMul(s.ki, acc)
      d   == VMul(s.kd, drate)
      raw == VAdd(VAdd(p, i), d)
      out == IF s.sat THEN LimitVec(raw, s.up, s.lo, s.prop) ELSE raw
  IN [s EXCEPT !.acc = acc, !.P = p, !.I = i, !.D = d, !.out = out, !.e = e]

(* error only: the rate is derived and low-pass filtered *)
PidCompute(s0, dt, e) ==
  LET s    == Fresh(s0, e)
      rate == VScale(F1 (/) dt, VSub(e, s.e))
      filt == VAdd(VMul(s.al, rate), VMul(VSub(VOnes(s.n), s.al), s.filt))
  IN Finish([s EXCEPT !.filt = filt], dt, e, filt)

(* error and error rate supplied *)
PidComputeD(s0, dt, e, de) ==
  LET s == Fresh(s0, e) IN Finish([s EXCEPT !.de = de], dt, e, de)

-----------------------------------------------------------------------------
(* Invariants of a PID record (checked on the model and on real executions) *)
Within(x, lo, up, rel) ==
  \A i \in 1..Len(x) :
     LET t == rel (\X) (F1 (+) (FAbs(lo[i]) (+) FAbs(up[i])))
     IN FLe(lo[i] (-) t, x[i]) /\ FLe(x[i], up[i] (+) t)

PidWithinLimits(s, rel) ==
  (~s.first /\ s.sat) =>
     (s.prop /\ ~(\A i \in 1..s.n : FLe(s.lo[i], F0) /\ FLe(F0, s.up[i])))
     \/ Within(s.out, s.lo, s.up, rel)
PidIntegralBounded(s, rel) ==
  (~s.first /\ ~VIsZero(s.aw)) => Within(s.acc, VNeg(s.aw), s.aw, rel)
================================================================================
