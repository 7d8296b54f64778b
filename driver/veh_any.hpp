// vehicle classes (model, dynamics, controllers, simulator) for one precision and rotor count
#pragma once
#include "pid_any.hpp"
#include "sens_any.hpp"
#include <multirotor_simulator.hpp>

template <typename P, int N> struct Veh {
  using V3 = Eigen::Matrix<P, 3, 1>;
  using VN = Eigen::Matrix<P, N, 1>;
  using M3 = Eigen::Matrix<P, 3, 3>;
  using Motor = multirotor::model::MotorParams<P>;
  using MPar = multirotor::model::ModelParams<P, N>;
  using Model = multirotor::model::Model<P, N>;
  using State = multirotor::state::State<P, N>;
  using Dyn = multirotor::dynamics::Dynamics<P, N>;
  using DPar = multirotor::dynamics::DynamicsParams<P, N>;
  using Ctl = multirotor::controller::Controller<P, N>;
  using CPar = multirotor::controller::ControllerParams<P, N>;
  using Sim = multirotor::Simulator<P, N>;
  using SPar = multirotor::SimulatorParams<P, N>;

  static M3 m3(Tok &t) { return mat<P, 3, 3>(t); }
  static VN vn(Tok &t) { return mat<P, N, 1>(t); }
  static Motor motor(Tok &t) {
    Motor m;
    OPT(m.motor_rotation_direction, t.i());
    m.thrust_coefficient = t.d(); m.torque_coefficient = t.d();
    OPT(m.pose.translation(), v3<P>(t));
    OPT(m.pose.linear(), m3(t));
    m.min_speed = t.d(); m.max_speed = t.d(); m.time_constant = t.d(); m.rotational_inertia = t.d();
    return m;
  }
  static MPar mpar(Tok &t) {
    MPar p;
    for (int i = 0; i < N; i++) p.motors_params[i] = motor(t);
    p.vehicle_mass = t.d(); p.vehicle_inertia = mat<P, 3, 3>(t);
    OPT(p.vehicle_drag_coefficient, t.d()); OPT(p.vehicle_aero_moment_coefficient, m3(t));
    OPT(p.gravity, v3<P>(t));
    OPT(p.force_process_noise_auto_correlation, t.d()); OPT(p.moment_process_noise_auto_correlation, t.d());
    return p;
  }
  static State state(Tok &t) {
    State s;
    OPT(s.kinematics.position, v3<P>(t)); OPT(s.kinematics.orientation, quat<P>(t));
    OPT(s.kinematics.linear_velocity, v3<P>(t)); OPT(s.kinematics.angular_velocity, v3<P>(t));
    OPT(s.kinematics.linear_acceleration, v3<P>(t)); OPT(s.kinematics.angular_acceleration, v3<P>(t));
    OPT(s.dynamics.force, v3<P>(t)); OPT(s.dynamics.torque, v3<P>(t));
    OPT(s.actuators.motor_angular_velocity, vn(t)); OPT(s.actuators.motor_angular_acceleration, vn(t));
    return s;
  }
  static DPar dpar(Tok &t) { DPar d; d.model_params = mpar(t); OPT(d.model_seed, t.i()); OPTREC(d.state, state(t), '~'); return d; }
  static pid_controller::PIDParams<P, 3> pid3(Tok &t) { return pid_par<P, 3>(t); }
  static auto acro_par(Tok &t) {
    acro_controller::AcroControllerParams<P> p;
    OPT(p.vehicle_mass, t.d()); OPT(p.kp_rot, m3(t)); OPT(p.gravity, v3<P>(t));
    return p;
  }
  static auto indi_par(Tok &t) {
    indi_controller::IndiControllerParams<P, N> p;
    auto mi = [&t]() -> Eigen::Matrix<P, N, 6> { return mat<P, N, 6>(t); };
    OPT(p.inertia, m3(t)); OPT(p.mixer_matrix_inverse, mi()); OPTREC(p.pid_params, pid3(t), '~');
    return p;
  }
  static CPar cpar(Tok &t) {
    CPar c;
    OPTREC(c.acro_controller_params, acro_par(t), '~'); OPTREC(c.indi_controller_params, indi_par(t), '~');
    OPTREC(c.position_controller_params.pid_params, pid3(t), '~');
    OPTREC(c.trajectory_controller_params.pid_params, pid3(t), '~');
    OPTREC(c.velocity_controller_params.pid_params, pid3(t), '~');
    return c;
  }
  static SPar spar(Tok &t) {
    SPar s;
    s.dynamics_params = dpar(t); OPTREC(s.controller_params, cpar(t), '^');
    OPTREC(s.imu_params, imu_par<P>(t), '~'); OPTREC(s.inertial_odometry_params, odo_par<P>(t), '~');
    return s;
  }

  // ---- observations ----
  static void motors_obs(Out &o, const char *k, const std::vector<Motor> &ms) {
    o.key(k); o.raw("[");
    for (size_t i = 0; i < ms.size(); i++) {
      o.raw(i ? ",{" : "{"); o.first = true;
      o.i("dir", ms[i].motor_rotation_direction); o.f("kt", ms[i].thrust_coefficient); o.f("kq", ms[i].torque_coefficient);
      V3 tr = ms[i].pose.translation(); M3 ro = ms[i].pose.linear();
      o.v("pos", tr); o.m("rot", ro);
      o.f("mn", ms[i].min_speed); o.f("mx", ms[i].max_speed); o.f("tau", ms[i].time_constant); o.f("J", ms[i].rotational_inertia);
      o.raw("}");
    }
    o.raw("]"); o.first = false;
  }
  static void model_obs(Out &o, Alt &a, const Model &m, bool full) {
    o.v("nf", m.get_stochastic_force()); o.v("nm", m.get_stochastic_moment());
    if (!full) return;
    const MPar &p = m.get_params();
    o.open("par");
    motors_obs(o, "motors", p.motors_params);
    o.f("mass", p.vehicle_mass); o.m("J", p.vehicle_inertia); o.f("cd", p.vehicle_drag_coefficient);
    o.m("aero", p.vehicle_aero_moment_coefficient); o.v("g", p.gravity);
    o.f("sF", p.force_process_noise_auto_correlation); o.f("sM", p.moment_process_noise_auto_correlation);
    o.close();
    o.m("mf", m.get_mixer_force_matrix()); o.m("mt", m.get_mixer_torque_matrix()); o.m("mi", m.get_mixer_inertia_matrix());
    o.v("fv", m.get_mixer_force_vector()); o.m("m6", m.get_mixer_matrix());
    o.i("nr", m.get_num_rotors());
    a.eq("mass", m.get_mass(), p.vehicle_mass); a.eq("J", m.get_vehicle_inertia(), p.vehicle_inertia);
    a.eq("cd", m.get_vehicle_drag_coefficient(), p.vehicle_drag_coefficient);
    a.eq("aero", m.get_vehicle_aero_moment_coefficient(), p.vehicle_aero_moment_coefficient);
    a.eq("g", m.get_gravity(), p.gravity);
    a.eq("sF", m.get_force_process_noise_auto_correlation(), p.force_process_noise_auto_correlation);
    a.eq("sM", m.get_moment_process_noise_auto_correlation(), p.moment_process_noise_auto_correlation);
    if (m.get_motors().size() != p.motors_params.size()) a.put("motors");
    else for (int i = 0; i < N; i++) {
      const Motor &x = m.get_motors()[i], &y = p.motors_params[i];
      a.eq("motors", x.thrust_coefficient, y.thrust_coefficient); a.eq("motors", x.max_speed, y.max_speed);
      a.eq("motors", x.time_constant, y.time_constant); a.eq("motors", x.min_speed, y.min_speed);
    }
  }
  static void state_obs(Out &o, const State &s) {
    o.v("p", s.kinematics.position); o.q("q", s.kinematics.orientation);
    o.v("v", s.kinematics.linear_velocity); o.v("w", s.kinematics.angular_velocity);
    o.v("a", s.kinematics.linear_acceleration); o.v("dw", s.kinematics.angular_acceleration);
    o.v("F", s.dynamics.force); o.v("T", s.dynamics.torque);
    o.v("mw", s.actuators.motor_angular_velocity); o.v("ma", s.actuators.motor_angular_acceleration);
  }
  static void ctl_obs(Out &o, Alt &a, const Ctl &c, bool full) {
    o.v("ar", c.get_acro_controller_const().get_desired_angular_velocity());
    o.v("tq", c.get_indi_controller_const().get_desired_torque());
    o.v("th", c.get_indi_controller_const().get_desired_thrust());
    o.v("imot", c.get_indi_controller_const().get_motor_angular_velocity());
    o.v("dpos", c.get_desired_position()); o.v("dvel", c.get_desired_linear_velocity());
    o.v("dacc", c.get_desired_linear_acceleration()); o.f("dthr", c.get_desired_thrust());
    o.v("drat", c.get_desired_angular_velocity()); o.v("mot", c.get_desired_motor_angular_velocity());
    const auto &in = c.get_indi_controller_const(); const auto &po = c.get_position_controller_const();
    const auto &tr = c.get_trajectory_controller_const(); const auto &ve = c.get_velocity_controller_const();
    o.open("rp"); pid_obs<P, 3>(o, a, in, full); o.close();
    o.open("pp"); pid_obs<P, 3>(o, a, po, full); o.close();
    o.open("tp"); pid_obs<P, 3>(o, a, tr, full); o.close();
    o.open("vp"); pid_obs<P, 3>(o, a, ve, full); o.close();
    a.eq("indi_acc", in.get_desired_angular_acceleration(), in.get_output());
    a.eq("indi_err", in.get_angular_velocity_error(), in.get_proportional_error());
    a.eq("pos_vel", po.get_desired_linear_velocity(), po.get_output());
    a.eq("pos_err", po.get_position_error(), po.get_proportional_error());
    a.eq("vel_acc", ve.get_desired_linear_acceleration(), ve.get_output());
    a.eq("vel_err", ve.get_velocity_error(), ve.get_proportional_error());
    a.eq("tra_err", tr.get_position_error(), tr.get_proportional_error());
    a.eq("tra_verr", tr.get_velocity_error(), tr.get_derivative_error());
    if (!full) return;
    const auto &ac = c.get_acro_controller_const();
    o.open("acro"); o.f("m", ac.get_vehicle_mass()); o.m("kp", ac.get_kp_rot()); o.v("g", ac.get_gravity()); o.close();
    o.open("indi"); o.m("J", in.get_inertia()); o.m("minv", in.get_mixer_matrix_inverse()); o.close();
  }
  // ---- operations on parts ----
  static bool ctl_exec(Ctl &c, const std::string &op, Tok &t, Out &r) {
    auto sub = op.find('.');
    if (sub != std::string::npos) {                       // operation on one loop's PID
      std::string w = op.substr(0, sub), o2 = op.substr(sub + 1);
      if (w == "rp") return pid_exec<P, 3>(c.get_indi_controller(), o2, t, r);
      if (w == "pp") return pid_exec<P, 3>(c.get_position_controller(), o2, t, r);
      if (w == "tp") return pid_exec<P, 3>(c.get_trajectory_controller(), o2, t, r);
      if (w == "vp") return pid_exec<P, 3>(c.get_velocity_controller(), o2, t, r);
      return false;
    }
    if (op == "acro") { V3 w = v3<P>(t); P th = t.d(); V3 rt = v3<P>(t); P dt = t.d(); r.v("v", c.compute_acro_control(w, th, rt, dt)); }
    else if (op == "accel") { M3 R = quat<P>(t).toRotationMatrix(); V3 w = v3<P>(t), a = v3<P>(t); P y = t.d(), dt = t.d(); r.v("v", c.compute_acceleration_control(R, w, a, y, dt)); }
    else if (op == "traj") { V3 p = v3<P>(t), v = v3<P>(t); M3 R = quat<P>(t).toRotationMatrix(); V3 w = v3<P>(t), pd = v3<P>(t), vd = v3<P>(t), ad = v3<P>(t); P y = t.d(), dt = t.d(); r.v("v", c.compute_trajectory_control(p, v, R, w, pd, vd, ad, y, dt)); }
    else if (op == "vel") { V3 v = v3<P>(t); M3 R = quat<P>(t).toRotationMatrix(); V3 w = v3<P>(t), vd = v3<P>(t); P y = t.d(), dt = t.d(); r.v("v", c.compute_velocity_control(v, R, w, vd, y, dt)); }
    else if (op == "pos") { V3 p = v3<P>(t); M3 R = quat<P>(t).toRotationMatrix(); V3 v = v3<P>(t), w = v3<P>(t), pd = v3<P>(t); P y = t.d(), dt = t.d(); r.v("v", c.compute_position_control(p, R, v, w, pd, y, dt)); }
    else if (op == "kacro") { V3 w = v3<P>(t); P th = t.d(); V3 rt = v3<P>(t); P dt = t.d(); r.v("v", c.convert_acro_to_motor_angular_velocity(w, th, rt, dt)); }
    else if (op == "kacc") { V3 a = v3<P>(t); M3 R = quat<P>(t).toRotationMatrix(); P y = t.d(), dt = t.d(); auto x = c.convert_linear_acceleration_to_acro(a, R, y, dt); r.f("t", x.first); r.v("w", x.second); }
    else if (op == "ktraj") { V3 p = v3<P>(t), v = v3<P>(t), pd = v3<P>(t), vd = v3<P>(t), ad = v3<P>(t); P dt = t.d(); r.v("v", c.convert_trajectory_to_linear_acceleration(p, v, pd, vd, ad, dt)); }
    else if (op == "kvel") { V3 v = v3<P>(t), vd = v3<P>(t); P dt = t.d(); r.v("v", c.convert_linear_velocity_to_linear_acceleration(v, vd, dt)); }
    else if (op == "kpos") { V3 p = v3<P>(t), pd = v3<P>(t); P dt = t.d(); r.v("v", c.convert_position_to_linear_velocity(p, pd, dt)); }
    else if (op == "yawrate") { P y = t.d(), w = t.d(); r.f("v", c.yaw_rate_to_angle(y, w)); }
    else if (op == "thrust") { V3 a = v3<P>(t); r.v("v", c.get_acro_controller().acceleration_to_thrust(a)); }
    else if (op == "rates") { M3 R = quat<P>(t).toRotationMatrix(); P y = t.d(); V3 th = v3<P>(t); r.v("v", c.get_acro_controller().yaw_angle_to_angular_velocity(R, y, th)); }
    else if (op == "sacro") {   // sub-controllers on their own, built from separate arguments
      P m = t.d(); M3 k = m3(t); bool ng = t.omitted(); V3 g; if (!ng) g = v3<P>(t);
      V3 a = v3<P>(t); M3 R = quat<P>(t).toRotationMatrix(); P y = t.d();
      acro_controller::AcroController<P> ac = ng ? acro_controller::AcroController<P>(m, k) : acro_controller::AcroController<P>(m, k, g);
      V3 T = ac.acceleration_to_thrust(a); r.v("t", T); r.v("v", ac.yaw_angle_to_angular_velocity(R, y, T));
    }
    else if (op == "sindi") {
      M3 J = m3(t); Eigen::Matrix<P, N, 6> mi = mat<P, N, 6>(t); auto pp = pid3(t);
      V3 w = v3<P>(t); P th = t.d(); V3 rt = v3<P>(t); P dt = t.d();
      indi_controller::IndiController<P, N> ic(J, mi, pp); r.v("v", ic.acro_to_motor_angular_velocity(w, th, rt, dt));
      r.v("tq", ic.get_desired_torque());
    }
    else if (op == "spos") { auto pp = pid3(t); V3 x = v3<P>(t), xd = v3<P>(t); P dt = t.d(); position_controller::PositionController<P> k(pp); r.v("v", k.position_to_linear_velocity(x, xd, dt)); }
    else if (op == "svel") { auto pp = pid3(t); V3 x = v3<P>(t), xd = v3<P>(t); P dt = t.d(); velocity_controller::VelocityController<P> k(pp); r.v("v", k.linear_velocity_to_linear_acceleration(x, xd, dt)); }
    else if (op == "stra") { auto pp = pid3(t); V3 x = v3<P>(t), v = v3<P>(t), xd = v3<P>(t), vd = v3<P>(t), ad = v3<P>(t); P dt = t.d(); trajectory_controller::TrajectoryController<P> k(pp); r.v("v", k.trajectory_to_linear_acceleration(x, v, xd, vd, ad, dt)); }
    else if (op == "creset") c.reset_controller();
    else if (op == "uacro") c.update_acro_controller_params(acro_par(t));
    else if (op == "uindi") c.update_indi_controller_params(indi_par(t));
    else if (op == "upos") { position_controller::PositionControllerParams<P> p; OPTREC(p.pid_params, pid3(t), '~'); c.update_position_controller_params(p); }
    else if (op == "utra") { trajectory_controller::TrajectoryControllerParams<P> p; OPTREC(p.pid_params, pid3(t), '~'); c.update_trajectory_controller_params(p); }
    else if (op == "uvel") { velocity_controller::VelocityControllerParams<P> p; OPTREC(p.pid_params, pid3(t), '~'); c.update_velocity_controller_params(p); }
    else if (op == "uall") c.update_params(cpar(t));
    else if (op == "amass") c.get_acro_controller().update_vehicle_mass(t.d());
    else if (op == "agrav") c.get_acro_controller().update_gravity(v3<P>(t));
    else if (op == "akp") c.get_acro_controller().update_kp_rot(mat<P, 3, 3>(t));
    else if (op == "iJ") c.get_indi_controller().update_inertia(mat<P, 3, 3>(t));
    else if (op == "iminv") c.get_indi_controller().update_mixer_matrix_inverse(mat<P, N, 6>(t));
    else if (op == "nop") {}
    else return false;
    return true;
  }
  static bool model_exec(Model &m, const std::string &op, Tok &t, Out &r) {
    if (op == "mupd") m.update_params(mpar(t));
    else if (op == "noise") { P dt = t.d(); m.set_stochastic_noise(dt); }
    else if (op == "nonoise") m.disable_stochastic_noise();
    else if (op == "drag") r.v("v", m.get_drag_force(v3<P>(t)));
    else if (op == "aerom") r.v("v", m.get_aerodynamic_moment(v3<P>(t)));
    else if (op == "thrust") { VN w = mat<P, N, 1>(t); r.f("v", m.get_force_thrust_by_motors(w)); }
    else if (op == "force") { VN w = mat<P, N, 1>(t); r.v("v", m.get_force_vector_thrust_by_motors(w)); }
    else if (op == "torque") { VN w = mat<P, N, 1>(t), a = mat<P, N, 1>(t); r.v("v", m.get_torque_by_motors(w, a)); }
    else if (op == "fsq") {
      VN v = mat<P, N, 1>(t); VN s = multirotor::utils::squared_keep_sign(v), q = multirotor::utils::sqrt_keep_sign(v);
      r.v("s", s); r.v("r", q); r.v("rs", VN(multirotor::utils::sqrt_keep_sign(s))); r.v("sr", VN(multirotor::utils::squared_keep_sign(q)));
    }
    else if (op == "fclamp") { VN v = mat<P, N, 1>(t); float lo = t.d(), hi = t.d(); multirotor::utils::clamp_vector(v, lo, hi); r.v("v", v); }
    else if (op == "fqd") { auto q = quat<P>(t); V3 w = v3<P>(t); Eigen::Matrix<P, 4, 1> x = multirotor::utils::get_quaternion_derivative(q, w); r.v("v", Eigen::Matrix<P, 4, 1>(x[3], x[0], x[1], x[2])); }
    else if (op == "fqi") { auto q = quat<P>(t); V3 w = v3<P>(t); P dt = t.d(); Eigen::Quaternion<P> x = multirotor::utils::get_quaternion_integrate(q, w, dt); r.v("v", Eigen::Matrix<P, 4, 1>(x.w(), x.x(), x.y(), x.z())); }
    else if (op == "fdrag") { P c = t.d(); V3 v = v3<P>(t); r.v("v", Model::get_drag_force(c, v)); }
    else if (op == "faero") { M3 c = m3(t); V3 w = v3<P>(t); r.v("v", Model::get_aerodynamic_moment(c, w)); }
    else if (op == "fthr") { VN c = mat<P, N, 1>(t), w = mat<P, N, 1>(t); r.f("v", Model::get_force_thrust_by_motors(c, w)); }
    else if (op == "fvec") { Eigen::Matrix<P, 3, N> c = mat<P, 3, N>(t); VN w = mat<P, N, 1>(t); r.v("v", Model::get_force_vector_thrust_by_motors(c, w)); }
    else if (op == "ftor") { Eigen::Matrix<P, 3, N> c = mat<P, 3, N>(t), i = mat<P, 3, N>(t); VN w = mat<P, N, 1>(t), a = mat<P, N, 1>(t); r.v("v", Model::get_torque_by_motors(c, i, w, a)); }
    else if (op == "check") r.b("v", m.check_params(mpar(t)));
    else if (op == "mix") { MPar p = mpar(t); r.m("m4", Model::template compute_mixer_matrix<4>(p.motors_params)); r.m("m6", Model::template compute_mixer_matrix<6>(p.motors_params)); r.m("mi", Model::compute_mixer_inertia_matrix(p.motors_params)); }
    else if (op == "preset") {
      std::string k = t.s(); P a[8]; int n = k == "hexa" ? 7 : 8;
      for (int i = 0; i < n; i++) a[i] = t.d();
      std::vector<Motor> ms = k == "x" ? Model::create_quadrotor_x_config(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])
                            : k == "plus" ? Model::create_quadrotor_plus_config(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])
                                          : Model::create_hexacopter_config(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
      motors_obs(r, "motors", ms);
    } else if (op == "inv") {
      if constexpr (N == 4) { Eigen::Matrix<P, 6, 4> m6 = mat<P, 6, 4>(t); r.m("v", indi_controller::compute_quadrotor_mixer_matrix_inverse<P>(m6)); }
      else throw std::logic_error("driver: inv");
    } else if (op == "nop") {}
    else return false;
    return true;
  }
  static bool dyn_exec(Dyn &d, const std::string &op, Tok &t, Out &r) {
    if (op == "step") {
      VN c = vn(t); P dt = t.d();
      V3 e; bool ne = t.omitted(); if (!ne) e = v3<P>(t);
      bool nn = t.omitted(), n = nn || t.b();
      if (ne) d.process_euler_explicit(c, dt);
      else if (nn) d.process_euler_explicit(c, dt, e);
      else d.process_euler_explicit(c, dt, e, n);
    }
    else if (op == "steps") { int k = t.i(); VN c = mat<P, N, 1>(t); P dt = t.d(); V3 e = v3<P>(t); bool n = t.b(); while (k-- > 0) d.process_euler_explicit(c, dt, e, n); }
    else if (op == "setst") d.set_state(state(t));
    else if (op == "setstp") { State s = state(t); d.set_state(&s); }
    else if (op == "setnull") { d.set_state(static_cast<const State *>(nullptr)); d.set_model(static_cast<const Model *>(nullptr)); }
    else if (op == "setmodel") d.set_model(ModelObj::mk(t));
    else if (op == "setmodelp") { MPar p = mpar(t); int s = t.i(); Model m(p, s); d.set_model(&m); }
    else if (op == "csv") { std::ostringstream s; s.precision(17); s << d.get_state(); bool ok; r.list("row", csv_nums(s.str(), ok)); r.b("ok", ok); }
    else if (op == "print") {
      std::ostringstream s;
      std::streambuf *b = std::cout.rdbuf(s.rdbuf());
      const std::streamsize k = std::cout.precision(17);
      try { multirotor::state::print_state(d.get_state()); } catch (...) { std::cout.rdbuf(b); throw; }
      std::cout.rdbuf(b); std::cout.precision(k);
      label_items(r, s.str());
    }
    else if (op == "mupd" || op == "nop") return model_exec(d.get_model(), op, t, r);
    else return false;
    return true;
  }

  struct ModelObj : Obj {
    Model m;
    explicit ModelObj(Tok &t) : m(mk(t)) {}
    static Model mk(Tok &t) { MPar p = mpar(t); if (t.omitted()) return Model(p); int s = t.i(); return Model(p, s); }
    CLONE(ModelObj)
    void exec(const std::string &op, Tok &t, Out &r) override { if (!model_exec(m, op, t, r)) throw std::logic_error("driver: model op " + op); }
    void obs(Out &o, Alt &a, bool full) override { model_obs(o, a, m, full); }
  };
  struct DynObj : Obj {
    Dyn d;
    explicit DynObj(Tok &t) : d(mk(t)) {}
    static Dyn mk(Tok &t) {   // the forms of construction are equivalent
      DPar p; p.model_params = mpar(t);
      bool ns = t.omitted(); if (!ns) p.model_seed = t.i();
      bool nt = t.omitted('~'); if (!nt) p.state = state(t);
      if (nt) return ns ? Dyn(Model(p.model_params)) : Dyn(Model(p.model_params, p.model_seed));
      if (ns) return p.state.kinematics.position(0) > 0 ? Dyn(p.model_params, p.state) : Dyn(p);
      if (p.model_seed % 3 == 1) return Dyn(Model(p.model_params, p.model_seed), p.state);
      if (p.model_seed % 3 == 2) return Dyn(p.model_params, p.model_seed, p.state);
      return Dyn(p);
    }
    CLONE(DynObj)
    void exec(const std::string &op, Tok &t, Out &r) override { if (!dyn_exec(d, op, t, r)) throw std::logic_error("driver: dyn op " + op); }
    void obs(Out &o, Alt &a, bool full) override {
      state_obs(o, d.get_state());
      State s; d.get_state(s);
      a.eq("state", s.kinematics.position, d.get_state().kinematics.position);
      a.eq("state", s.kinematics.orientation, d.get_state().kinematics.orientation);
      a.eq("state", s.actuators.motor_angular_velocity, d.get_state().actuators.motor_angular_velocity);
      o.open("mo"); model_obs(o, a, d.get_model_const(), full); o.close();
      Model m; d.get_model(m); a.eq("model", m.get_stochastic_force(), d.get_model().get_stochastic_force());
    }
  };
  struct CtlObj : Obj {
    Ctl c;
    explicit CtlObj(Tok &t) : c(mk(t)) {}
    static Ctl mk(Tok &t) { return t.omitted('^') ? Ctl() : Ctl(cpar(t)); }
    CLONE(CtlObj)
    void exec(const std::string &op, Tok &t, Out &r) override { if (!ctl_exec(c, op, t, r)) throw std::logic_error("driver: ctl op " + op); }
    void obs(Out &o, Alt &a, bool full) override { ctl_obs(o, a, c, full); }
  };
  struct SimObj : Obj {
    Sim s;
    explicit SimObj(Tok &t) : s(spar(t)) {}
    CLONE(SimObj)
    void exec(const std::string &op, Tok &t, Out &r) override {
      using multirotor::ControlMode; using multirotor::YawControlMode;
      if (op == "ud") s.update_dynamics(t.d());
      else if (op == "uc") s.update_controller(t.d());
      else if (op == "ui") s.update_imu(t.d());
      else if (op == "uo") s.update_inertial_odometry(t.d());
      else if (op == "fly") { int k = t.i(); P dt = t.d(); while (k-- > 0) { s.update_controller(dt); s.update_dynamics(dt); s.update_imu(dt); s.update_inertial_odometry(dt); } }
      else if (op == "arm") s.arm();
      else if (op == "disarm") s.disarm();
      else if (op == "floor") s.enable_floor_collision(t.d());
      else if (op == "floor0") s.enable_floor_collision();
      else if (op == "nofloor") s.disable_floor_collision();
      else if (op == "mode") { int m = t.i(), y = t.i(); s.set_control_mode(static_cast<ControlMode>(m), static_cast<YawControlMode>(y)); }
      else if (op == "mode1") s.set_control_mode(static_cast<ControlMode>(t.i()));
      else if (op == "rmw") s.set_refence_motors_angular_velocity(mat<P, N, 1>(t));
      else if (op == "racro") { P th = t.d(); V3 w = v3<P>(t); s.set_reference_acro(th, w); }
      else if (op == "rtraj") { V3 p = v3<P>(t), v = v3<P>(t), a = v3<P>(t); s.set_reference_trajectory(p, v, a); }
      else if (op == "rvel") s.set_reference_velocity(v3<P>(t));
      else if (op == "rpos") s.set_reference_position(v3<P>(t));
      else if (op == "ryaw") s.set_reference_yaw_angle(t.d());
      else if (op == "ryr") s.set_reference_yaw_rate(t.d());
      else if (op == "pdyn") s.set_dynamics_params(dpar(t));
      else if (op == "pctl") s.set_controller_params(cpar(t));
      else if (op == "pimu") s.set_imu_params(imu_par<P>(t));
      else if (op == "podo") s.set_inertial_odometry_params(odo_par<P>(t));
      else if (op == "printo") odo_exec<P>(s.get_inertial_odometry(), "print", t, r);
      else if (op == "csvo") odo_exec<P>(s.get_inertial_odometry(), "csv", t, r);
      else if (op.rfind("ctl:", 0) == 0) { if (!ctl_exec(s.get_controller(), op.substr(4), t, r)) throw std::logic_error("driver: sim op " + op); }
      else if (op.rfind("imu:", 0) == 0) { if (!imu_exec<P>(s.get_imu(), op.substr(4), t)) throw std::logic_error("driver: sim op " + op); }
      else if (op.rfind("odo:", 0) == 0) { if (!odo_exec<P>(s.get_inertial_odometry(), op.substr(4), t, r)) throw std::logic_error("driver: sim op " + op); }
      else if (!dyn_exec(s.get_dynamics(), op, t, r)) throw std::logic_error("driver: sim op " + op);
    }
    void obs(Out &o, Alt &a, bool full) override {
      const Sim &c = s;
      o.open("st"); state_obs(o, c.get_state()); o.close();
      o.open("mo"); model_obs(o, a, c.get_dynamics_const().get_model_const(), full); o.close();
      o.open("ctl"); ctl_obs(o, a, c.get_controller_const(), full); o.close();
      o.open("imu"); imu_obs<P>(o, a, c.get_imu_const()); o.close();
      o.open("odo"); odo_obs<P>(o, a, c.get_inertial_odometry_const()); o.close();
      o.b("armed", c.get_armed()); o.b("fe", c.get_floor_collision_enabled()); o.f("fh", c.get_floor_height());
      o.open("r");
      o.v("mw", c.get_reference_motors_angular_velocity()); o.f("thr", c.get_reference_thrust());
      o.v("rat", c.get_reference_angular_velocity()); o.v("pos", c.get_reference_position());
      o.v("vel", c.get_reference_velocity()); o.v("acc", c.get_reference_acceleration());
      o.f("yaw", c.get_reference_yaw()); o.f("yr", c.get_reference_yaw_rate());
      o.close();
      o.v("act", c.get_actuation_motors_angular_velocity()); o.v("ext", c.get_external_force());
      o.i("mode", c.get_control_mode()); o.i("ym", c.get_yaw_control_mode());
      // the other getter forms
      bool b; P x; V3 v; VN n; multirotor::ControlMode m; multirotor::YawControlMode y; State st;
      c.get_armed(b); a.eq("armed", b, c.get_armed());
      c.get_floor_collision_enabled(b); a.eq("fe", b, c.get_floor_collision_enabled());
      c.get_floor_height(x); a.eq("fh", x, c.get_floor_height());
      c.get_reference_motors_angular_velocity(n); a.eq("rmw", n, c.get_reference_motors_angular_velocity());
      c.get_reference_thrust(x); a.eq("rthr", x, c.get_reference_thrust());
      c.get_reference_angular_velocity(v); a.eq("rrat", v, c.get_reference_angular_velocity());
      c.get_reference_position(v); a.eq("rpos", v, c.get_reference_position());
      c.get_reference_velocity(v); a.eq("rvel", v, c.get_reference_velocity());
      c.get_reference_acceleration(v); a.eq("racc", v, c.get_reference_acceleration());
      c.get_reference_yaw(x); a.eq("ryaw", x, c.get_reference_yaw());
      c.get_reference_yaw_rate(x); a.eq("ryr", x, c.get_reference_yaw_rate());
      c.get_actuation_motors_angular_velocity(n); a.eq("act", n, c.get_actuation_motors_angular_velocity());
      c.get_external_force(v); a.eq("ext", v, c.get_external_force());
      c.get_control_mode(m); a.eq("mode", m, c.get_control_mode());
      c.get_yaw_control_mode(y); a.eq("ym", y, c.get_yaw_control_mode());
      c.get_state(st); a.eq("state", st.kinematics.position, c.get_state().kinematics.position);
      a.eq("state", st.kinematics.linear_velocity, c.get_state().kinematics.linear_velocity);
      a.eq("state", st.actuators.motor_angular_velocity, c.get_state().actuators.motor_angular_velocity);
      auto k = c.get_odometry(); typename std::decay<decltype(k)>::type k2; c.get_odometry(k2);
      const auto &io = c.get_inertial_odometry_const();
      a.eq("odom", k.position, io.get_position()); a.eq("odom", k.orientation, io.get_orientation());
      a.eq("odom", k.linear_velocity, io.get_linear_velocity()); a.eq("odom", k.angular_velocity, io.get_angular_velocity());
      a.eq("odom", k.linear_acceleration, io.get_linear_acceleration());
      a.eq("odom2", k2.position, k.position); a.eq("odom2", k2.orientation, k.orientation); a.eq("odom2", k2.linear_velocity, k.linear_velocity);
      a.eq("odom2", k2.angular_velocity, k.angular_velocity); a.eq("odom2", k2.linear_acceleration, k.linear_acceleration);
      V3 g, ac; c.get_imu_measurement(g, ac);
      a.eq("imug", g, c.get_imu_const().get_measurement_gyro()); a.eq("imua", ac, c.get_imu_const().get_measurement_accel());
      if (full) {
        Dyn d2; c.get_dynamics(d2); a.eq("getdyn", d2.get_state().kinematics.position, c.get_state().kinematics.position);
        Ctl c2; c.get_controller(c2); a.eq("getctl", c2.get_desired_motor_angular_velocity(), c.get_controller_const().get_desired_motor_angular_velocity());
        imu::IMU<P> i2; c.get_imu(i2); a.eq("getimu", i2.get_measurement_gyro(), c.get_imu_const().get_measurement_gyro());
        imu::InertialOdometry<P> o2; c.get_inertial_odometry(o2); a.eq("getodo", o2.get_position(), io.get_position());
        a.eq("getdyn", s.get_dynamics().get_state().kinematics.position, c.get_state().kinematics.position);
      }
    }
  };
  static void reg(const std::string &sfx) {
    factories()["model." + sfx] = [](Tok &t) -> Obj * { return new ModelObj(t); };
    factories()["dyn." + sfx] = [](Tok &t) -> Obj * { return new DynObj(t); };
    factories()["ctl." + sfx] = [](Tok &t) -> Obj * { return new CtlObj(t); };
    factories()["sim." + sfx] = [](Tok &t) -> Obj * { return new SimObj(t); };
  }
};
