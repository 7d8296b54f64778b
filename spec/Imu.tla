---------------------------------- MODULE Imu ----------------------------------
(***************************************************************************)
(* Inertial sensor and inertial odometry.                                  *)
(* Sensor: [gv, av] noise variances, [gs, as] bias auto-correlations,      *)
(* q mounting, [gb, ab] biases, [gy, ac] measurement.                      *)
(* Odometry: al filter constant, q0 initial orientation, [gf, af] filtered *)
(* measurements, [p, q, v, w, a] estimate.                                 *)
(***************************************************************************)
EXTENDS Lin

(* The random samples are inputs of the specification: z is a 12-vector of
   standard normal values (gyro bias, accel bias, gyro noise, accel noise). *)
ImuStart(par, gb, ab) ==
  [gv |-> par.gv, av |-> par.av, gs |-> par.gs, as |-> par.as, q |-> par.q,
   gb |-> gb, ab |-> ab, gy |-> Zero3, ac |-> Zero3]
ImuReset(i) == [i EXCEPT !.gb = Zero3, !.ab = Zero3, !.gy = Zero3, !.ac = Zero3]
BiasScale(s, dt) == FSqrt(s (/) dt) (\X) dt
ToSensor(i, x)   == QRot(QInv(i.q), x)
ImuUpdate(i, dt, f, w, z) ==
  IF FLe(dt, F0) THEN i
  ELSE LET gb == VAdd(i.gb, VScale(BiasScale(i.gs, dt), SubSeq(z, 1, 3)))
           ab == VAdd(i.ab, VScale(BiasScale(i.as, dt), SubSeq(z, 4, 6)))
       IN [i EXCEPT !.gb = gb, !.ab = ab,
             !.gy = VAdd(VAdd(ToSensor(i, w), gb), VScale(FSqrt(i.gv), SubSeq(z, 7, 9))),
             !.ac = VAdd(VAdd(ToSensor(i, f), ab), VScale(FSqrt(i.av), SubSeq(z, 10, 12)))]
(* the sample that explains an observed update; zero where the scale is zero *)
Explain(scale, d) == IF FEq(scale, F0) THEN Zero3 ELSE VScale(F1 (/) scale, d)
ImuSample(i, dt, f, w, gb, ab, gy, ac) ==
  Explain(BiasScale(i.gs, dt), VSub(gb, i.gb)) \o Explain(BiasScale(i.as, dt), VSub(ab, i.ab))
  \o Explain(FSqrt(i.gv), VSub(gy, VAdd(ToSensor(i, w), gb)))
  \o Explain(FSqrt(i.av), VSub(ac, VAdd(ToSensor(i, f), ab)))

-----------------------------------------------------------------------------
OdoNew(al, q0) == [al |-> al, q0 |-> q0, gf |-> Zero3, af |-> Zero3,
                   p |-> Zero3, q |-> q0, v |-> Zero3, w |-> Zero3, a |-> Zero3]
OdoReset(o) == OdoNew(o.al, o.q0)
OdoSetOrientation(o, q) == [o EXCEPT !.q0 = q, !.q = q]
LowPass(al, x, y) == VAdd(VScale(al, x), VScale(F1 (-) al, y))
OdoUpdate(o, gy, ac, dt) ==
  LET gf == LowPass(o.al, gy, o.gf)
      af == LowPass(o.al, ac, o.af)
      a  == QRot(o.q, af)
      v  == VAdd(o.v, VScale(dt, a))
  IN [o EXCEPT !.gf = gf, !.af = af, !.w = gf, !.a = a, !.v = v,
               !.p = VAdd(o.p, VScale(dt, v)), !.q = QStep(o.q, gf, dt)]
================================================================================
