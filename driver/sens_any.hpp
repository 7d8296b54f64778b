#pragma once
#include "drv.hpp"
#include <imu_simulator/imu.hpp>
#include <imu_simulator/inertial_odometry.hpp>
template <typename P> imu::IMUParams<P> imu_par(Tok &t) {
  imu::IMUParams<P> p;
  OPT(p.gyro_noise_var, t.d()); OPT(p.accel_noise_var, t.d());
  OPT(p.gyro_bias_noise_autocorr_time, t.d()); OPT(p.accel_bias_noise_autocorr_time, t.d());
  OPT(p.imu_orientation, quat<P>(t)); OPT(p.seed, t.i());
  return p;
}
template <typename P> void imu_obs(Out &o, Alt &a, const imu::IMU<P> &c) {
  using V = Eigen::Matrix<P, 3, 1>;
  V g, ac, gb, ab, g2, ac2;
  c.get_measurement(g, ac); c.get_bias(gb, ab);
  o.v("gy", g); o.v("ac", ac); o.v("gb", gb); o.v("ab", ab);
  P gv, av; c.get_variances(gv, av); o.f("gv", gv); o.f("av", av);
  c.get_measurement_gyro(g2); c.get_measurement_accel(ac2);
  a.eq("gyro", g, g2); a.eq("accel", ac, ac2);
  a.eq("gyro", g, c.get_measurement_gyro()); a.eq("accel", ac, c.get_measurement_accel());
  auto pr = c.get_measurement();
  V p1 = pr.first, p2 = pr.second;
  a.eq("meas", g, p1); a.eq("meas", ac, p2);
}
template <typename P> bool imu_exec(imu::IMU<P> &c, const std::string &op, Tok &t) {
  using V = Eigen::Matrix<P, 3, 1>;
  if (op == "update") { P dt = t.d(); V f = v3<P>(t), w = v3<P>(t); c.update(dt, f, w); }
  else if (op == "reset") c.reset();
  else if (op == "seed") c.set_random_seed(t.i());
  else if (op == "var") { P g = t.d(), a = t.d(); c.set_noise_variances(g, a); }
  else if (op == "bauto") { P g = t.d(), a = t.d(); c.set_bias_autocorrelation_time(g, a); }
  else if (op == "bias") { V g = v3<P>(t), a = v3<P>(t); P x = t.d(), y = t.d(); c.set_bias(g, a, x, y); }
  else if (op == "mount") c.set_orientation(quat<P>(t));
  else if (op == "nop") {}
  else return false;
  return true;
}
template <typename P> struct ImuObj : Obj {
  imu::IMU<P> c;
  explicit ImuObj(Tok &t) : c(mk(t)) {}
  static imu::IMU<P> mk(Tok &t) {   // "+k": positional form with the first k arguments, else the parameter struct
    Tok u = t;
    std::string f = u.s();
    if (f[0] != '+') return imu::IMU<P>(imu_par<P>(t));
    t = u;
    imu::IMUParams<P> p = imu_par<P>(t);
    switch (f[1]) {
      case '0': return imu::IMU<P>();
      case '1': return imu::IMU<P>(p.gyro_noise_var);
      case '2': return imu::IMU<P>(p.gyro_noise_var, p.accel_noise_var);
      case '3': return imu::IMU<P>(p.gyro_noise_var, p.accel_noise_var, p.gyro_bias_noise_autocorr_time);
      case '4': return imu::IMU<P>(p.gyro_noise_var, p.accel_noise_var, p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time);
      case '5': return imu::IMU<P>(p.gyro_noise_var, p.accel_noise_var, p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time, p.imu_orientation);
      default: return imu::IMU<P>(p.gyro_noise_var, p.accel_noise_var, p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time, p.imu_orientation, p.seed);
    }
  }
  CLONE(ImuObj)
  void exec(const std::string &op, Tok &t, Out &) override { if (!imu_exec<P>(c, op, t)) throw std::logic_error("driver: imu op " + op); }
  void obs(Out &o, Alt &a, bool) override { imu_obs<P>(o, a, c); }
};
inline std::vector<double> csv_nums(const std::string &s, bool &ok) {
  std::vector<double> r; ok = true;
  std::stringstream ss(s); std::string f;
  while (std::getline(ss, f, ',')) {
    char *e; double x = strtod(f.c_str(), &e);
    if (f.empty() || *e) ok = false;
    r.push_back(x);
  }
  if (!s.empty() && s.back() == ',') ok = false;
  return r;
}
// "name: value" items of a printout, something between them
inline void label_items(Out &r, const std::string &s) {
  std::vector<double> x; std::string l; bool ok = true;
  const char *p = s.c_str();
  auto sep = [](char c) { return c == ',' || c == ';' || isspace((unsigned char)c); };
  while (sep(*p)) p++;
  while (*p) {
    std::string n;
    while (isalnum((unsigned char)*p) || *p == '_') n += *p++;
    if (n.empty() || *p != ':') { ok = false; break; }
    char *e; double v = strtod(++p, &e);
    if (e == p || (*e && !sep(*e))) { ok = false; break; }
    if (!x.empty()) l += ',';
    l += '"'; l += n; l += '"'; x.push_back(v);
    for (p = e; sep(*p); p++) {}
  }
  r.key("lab"); r.s += '['; r.s += l; r.s += ']';
  r.list("row", x); r.b("ok", ok);
}
template <typename P> imu::InertialOdometryParams<P> odo_par(Tok &t) {
  imu::InertialOdometryParams<P> p;
  OPT(p.alpha, t.d()); OPT(p.initial_world_orientation, quat<P>(t));
  return p;
}
template <typename P> void odo_obs(Out &o, Alt &a, const imu::InertialOdometry<P> &c) {
  using V = Eigen::Matrix<P, 3, 1>;
  V p, v, w, ac; Eigen::Quaternion<P> q;
  c.get_measurement(p, q, v, w, ac);
  o.v("p", p); o.q("q", q); o.v("v", v); o.v("w", w); o.v("a", ac);
  a.eq("opos", p, c.get_position()); a.eq("oori", q, c.get_orientation()); a.eq("ovel", v, c.get_linear_velocity());
  a.eq("oang", w, c.get_angular_velocity()); a.eq("oacc", ac, c.get_linear_acceleration());
}
template <typename P> bool odo_exec(imu::InertialOdometry<P> &c, const std::string &op, Tok &t, Out &r) {
  using V = Eigen::Matrix<P, 3, 1>;
  if (op == "update") { V g = v3<P>(t), a = v3<P>(t); P dt = t.d(); c.update(g, a, dt); }
  else if (op == "reset") c.reset();
  else if (op == "orient") c.set_initial_orientation(quat<P>(t));
  else if (op == "csv") { std::ostringstream s; s.precision(17); s << c; bool ok; r.list("row", csv_nums(s.str(), ok)); r.b("ok", ok); }
  else if (op == "print") { std::ostringstream s; s.precision(17); print_state(s, c); label_items(r, s.str()); }
  else if (op == "nop") {}
  else return false;
  return true;
}
template <typename P> struct OdoObj : Obj {
  imu::InertialOdometry<P> c;
  explicit OdoObj(Tok &t) : c(mk(t)) {}
  static imu::InertialOdometry<P> mk(Tok &t) {
    Tok u = t;
    std::string f = u.s();
    if (f[0] != '+') return imu::InertialOdometry<P>(odo_par<P>(t));
    t = u;
    imu::InertialOdometryParams<P> p = odo_par<P>(t);
    if (f[1] == '0') return imu::InertialOdometry<P>();
    if (f[1] == '1') return imu::InertialOdometry<P>(p.alpha);
    return imu::InertialOdometry<P>(p.alpha, p.initial_world_orientation);
  }
  CLONE(OdoObj)
  void exec(const std::string &op, Tok &t, Out &r) override { if (!odo_exec<P>(c, op, t, r)) throw std::logic_error("driver: odo op " + op); }
  void obs(Out &o, Alt &a, bool) override { odo_obs<P>(o, a, c); }
};
