-------------------------------- MODULE MCModel --------------------------------
(***************************************************************************)
(* Model checking of parameter validation (C13, C14) and the walks for the *)
(* real model: from every installed parameter set, every update with one   *)
(* field of one rotor or of the body made invalid, put on its boundary, or *)
(* changed.                                                                *)
(***************************************************************************)
EXTENDS Model, Json, IOUtils, FiniteSets

Base  == ndJsonDeserialize(IOEnv.PAR)       \* valid parameter sets
Emit  == IOEnv.EMIT = "1"
Depth == atoi(IOEnv.DEPTH)
VARIABLES b0, m, inst, h
vars == <<b0, m, inst, h>>

Row1(A, r) == <<r, A[2], A[3]>>
N1 == FInt(-1)
Body == {"mass", "cd", "J", "aero", "mass0", "cd0", "aero0", "mass+", "g", "sF"}
Rotor == {"range", "tau", "J", "kt", "kq", "point", "kt0", "J+", "pos"}
(* one change of one field; the ones in Bad make the set invalid *)
BadBody == {"mass", "cd", "J", "aero"}
BadRotor == {"range", "tau", "J", "kt", "kq"}
ChBody(p, c) ==
  CASE c = "mass" -> [p EXCEPT !.mass = FNeg(p.mass)]
    [] c = "cd"   -> [p EXCEPT !.cd = FRat(-1, 1000)]
    [] c = "J"    -> [p EXCEPT !.J = Row1(p.J, VNeg(p.J[1]))]
    [] c = "aero" -> [p EXCEPT !.aero = <<<<FRat(-1, 100), F0, F0>>, <<F0, FRat(1, 100), F0>>, <<F0, F0, FRat(1, 100)>>>>]
    [] c = "mass0" -> [p EXCEPT !.mass = FRat(1, 1000)]
    [] c = "cd0"  -> [p EXCEPT !.cd = F0]
    [] c = "aero0" -> [p EXCEPT !.aero = MT(<<Zero3, Zero3, Zero3>>)]
    [] c = "mass+" -> [p EXCEPT !.mass = F2 (\X) p.mass]
    [] c = "g"    -> [p EXCEPT !.g = <<FRat(1, 4), F0, FInt(-8)>>]
    [] c = "sF"   -> [p EXCEPT !.sF = FRat(1, 4), !.sM = FRat(1, 16)]
ChRotor(r, c) ==
  CASE c = "range" -> [r EXCEPT !.mx = r.mn (-) F1]
    [] c = "tau"  -> [r EXCEPT !.tau = FNeg(r.tau)]
    [] c = "J"    -> [r EXCEPT !.J = FRat(-1, 100000)]
    [] c = "kt"   -> [r EXCEPT !.kt = FNeg(r.kt)]
    [] c = "kq"   -> [r EXCEPT !.kq = FNeg(r.kq)]
    [] c = "point" -> [r EXCEPT !.mx = r.mn]
    [] c = "kt0"  -> [r EXCEPT !.kt = F0]
    [] c = "J+"   -> [r EXCEPT !.J = FRat(1, 1000)]
    [] c = "pos"  -> [r EXCEPT !.pos = VAdd(r.pos, <<FRat(1, 8), FRat(-1, 8), FRat(1, 16)>>)]
Pairs == {<<c, 0>> : c \in Body} \cup {<<c, j>> : c \in Rotor, j \in 1..Len(Base[1].motors)}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
Kinds == TLCEval(<< <<"", 0>> >> \o Listed(Pairs))
Change(p, c) == IF c[1] = "" THEN p ELSE IF c[2] = 0 THEN ChBody(p, c[1]) ELSE [p EXCEPT !.motors[c[2]] = ChRotor(p.motors[c[2]], c[1])]
Invalid(c) == IF c[2] = 0 THEN c[1] \in BadBody ELSE c[1] \in BadRotor
Alphabet == TLCEval([i \in 1..(Len(Base) * Len(Kinds)) |->
   LET b == ((i - 1) \div Len(Kinds)) + 1  c == Kinds[((i - 1) % Len(Kinds)) + 1] IN [bad |-> Invalid(c), what |-> c, op |-> "mupd", a |-> [p |-> Change(Base[b], c)]]])
-----------------------------------------------------------------------------
(* C14: refused exactly when a field is invalid, and then nothing changes; accepted, everything follows *)
P14(x, c, y) == IF c.bad THEN y = x ELSE y.par = c.a.p /\ y.mf = MixF(c.a.p.motors) /\ y.mt = MixT(c.a.p.motors) /\ y.mi = MixI(c.a.p.motors)
(* C13: the force and torque of one rotor turning, from first principles *)
One(n, j, w) == [i \in 1..n |-> IF i = j THEN w ELSE F0]
P13(y) == \A j \in 1..Len(y.par.motors) :
   LET r == y.par.motors[j]  w == FInt(30)  n == Len(y.par.motors)
       f == VScale(r.kt (\X) FInt(900), <<r.rot[1][3], r.rot[2][3], r.rot[3][3]>>)
       q == VScale(FDir(r) (\X) (r.kq (\X) FInt(900)), <<r.rot[1][3], r.rot[2][3], r.rot[3][3]>>)
   IN /\ VNear(MotorForce(y, One(n, j, w)), f, FRat(1, 1000000000))
      /\ VNear(MotorForce(y, One(n, j, FNeg(w))), VNeg(f), FRat(1, 1000000000))
      /\ VNear(MotorTorque(y, One(n, j, w), VZero(n)), VAdd(Cross(r.pos, f), q), FRat(1, 1000000000))
Init == /\ b0 \in 1..Len(Base) /\ inst = b0 /\ m = Derive(Base[inst]) /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E i \in 1..Len(Alphabet) :
             LET c == Alphabet[i] IN
             /\ m' = TLCEval(ModelUpdate(m, c.a.p))
             /\ b0' = b0 /\ inst' = IF c.bad THEN inst ELSE i
             /\ h' = Append(h, i)
             /\ Assert(P14(m, c, m'), <<"C14", h, c.what>>) /\ Assert(P13(m'), <<"C13", h, c.what>>)
             /\ (Emit => PrintT(<<"W", b0, h'>>))
Spec == Init /\ [][Next]_vars
View == <<inst, Len(h)>>
ASSUME Emit => PrintT(<<"ALPHABET", ToJson(Alphabet)>>)
================================================================================
