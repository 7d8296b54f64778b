#pragma once
#include "drv.hpp"
#include <pid_controller/pid.hpp>
#include <pid_controller/pid_1d.hpp>

template <typename P, int n>
pid_controller::PIDParams<P, n> pid_par(Tok &t) {
  pid_controller::PIDParams<P, n> p;
  auto vec = [&t]() -> Eigen::Matrix<P, n, 1> { return mat<P, n, 1>(t); };
  OPT(p.Kp_gains, vec()); OPT(p.Ki_gains, vec()); OPT(p.Kd_gains, vec());
  OPT(p.antiwindup_cte, vec()); OPT(p.alpha, vec());
  OPT(p.reset_integral_flag, t.b()); OPT(p.proportional_saturation_flag, t.b());
  OPT(p.upper_output_saturation, vec()); OPT(p.lower_output_saturation, vec());
  return p;
}
template <typename P, int n>
void pid_obs(Out &o, Alt &a, const pid_controller::PID<P, n> &c, bool full) {
  using V = Eigen::Matrix<P, n, 1>;
  o.v("e", c.get_proportional_error()); o.v("de", c.get_derivative_error());
  o.v("P", c.get_proportional_error_contribution()); o.v("I", c.get_integral_error_contribution());
  o.v("D", c.get_derivative_error_contribution()); o.v("out", c.get_output());
  if (!full) return;
  auto p = c.get_params();
  o.open("par");
  o.v("kp", p.Kp_gains); o.v("ki", p.Ki_gains); o.v("kd", p.Kd_gains);
  o.v("aw", p.antiwindup_cte); o.v("al", p.alpha);
  o.b("ri", p.reset_integral_flag); o.b("prop", p.proportional_saturation_flag);
  o.b("sat", c.get_output_saturation_flag());
  o.v("up", p.upper_output_saturation); o.v("lo", p.lower_output_saturation);
  o.close();
  V kp, ki, kd, u, l;
  c.get_gains(kp, ki, kd);
  a.eq("kp", kp, p.Kp_gains); a.eq("ki", ki, p.Ki_gains); a.eq("kd", kd, p.Kd_gains);
  a.eq("kp", kp, c.get_gains_kp()); a.eq("ki", ki, c.get_gains_ki()); a.eq("kd", kd, c.get_gains_kd());
  a.eq("aw", c.get_anti_windup(), p.antiwindup_cte); a.eq("al", c.get_alpha(), p.alpha);
  a.eq("ri", c.get_reset_integral_saturation_flag(), p.reset_integral_flag);
  a.eq("prop", c.get_proportional_saturation_flag(), p.proportional_saturation_flag);
  c.get_saturation_limits(u, l);
  a.eq("up", u, p.upper_output_saturation); a.eq("lo", l, p.lower_output_saturation);
}
// returns false if op is not a PID operation
template <typename P, int n>
bool pid_exec(pid_controller::PID<P, n> &c, const std::string &op, Tok &t, Out &r) {
  using V = Eigen::Matrix<P, n, 1>;
  auto vec = [&]() -> V { return mat<P, n, 1>(t); };
  if (op == "c2") { P dt = t.d(); V e = vec(); r.v("v", c.compute_control(dt, e)); }
  else if (op == "c3") { P dt = t.d(); V e = vec(), de = vec(); r.v("v", c.compute_control(dt, e, de)); }
  else if (op == "reset") c.reset_controller();
  else if (op == "upd") c.update_pid_params(pid_par<P, n>(t));
  else if (op == "sg") { V a = vec(), b = vec(), d = vec(); c.set_gains(a, b, d); }
  else if (op == "skp") c.set_gains_kp(vec());
  else if (op == "ski") c.set_gains_ki(vec());
  else if (op == "skd") c.set_gains_kd(vec());
  else if (op == "saw") c.set_anti_windup(vec());
  else if (op == "sal") c.set_alpha(vec());
  else if (op == "sri") c.set_reset_integral_saturation_flag(t.b());
  else if (op == "sprop") c.set_proportional_saturation_flag(t.b());
  else if (op == "slim") { V u = vec(), l = vec(); if (t.omitted()) c.set_output_saturation(u, l); else { bool p = t.b(); c.set_output_saturation(u, l, p); } }
  else if (op == "dlim") c.disable_output_saturation();
  else if (op == "nop") {}
  else if (op == "err") { V s = vec(), rf = vec(); r.v("v", pid_controller::PID<P, n>::get_error(s, rf)); }
  else if (op == "err4") {
    V s = vec(), rf = vec(), sd = vec(), rd = vec(), pe, de;
    pid_controller::PID<P, n>::get_error(s, rf, sd, rd, pe, de);
    r.v("v", pe); r.v("d", de);
  } else if (op == "lim") {
    V x = vec(), u = vec(), l = vec();
    if (t.omitted()) r.v("v", pid_controller::PID<P, n>::saturate_output(x, u, l));
    else { bool p = t.b(); r.v("v", pid_controller::PID<P, n>::saturate_output(x, u, l, p)); }
  } else return false;
  return true;
}
template <typename P, int n>
struct PidObj : Obj {
  pid_controller::PID<P, n> c;
  explicit PidObj(Tok &t) : c(mk(t)) {}
  static pid_controller::PID<P, n> mk(Tok &t) { return t.omitted('~') ? pid_controller::PID<P, n>() : pid_controller::PID<P, n>(pid_par<P, n>(t)); }
  CLONE(PidObj)
  void exec(const std::string &op, Tok &t, Out &r) override {
    if (!pid_exec<P, n>(c, op, t, r)) throw std::logic_error("driver: pid op " + op);
  }
  void obs(Out &o, Alt &a, bool full) override { pid_obs<P, n>(o, a, c, full); }
};
template <typename P>
struct Pid1Obj : Obj {
  using C = pid_1d_controller::PID<P>;
  using V = Eigen::Matrix<P, 1, 1>;
  C c;
  static pid_1d_controller::PIDParams<P> par(Tok &t) {
    pid_1d_controller::PIDParams<P> p;
    OPT(p.Kp_gains, t.d()); OPT(p.Ki_gains, t.d()); OPT(p.Kd_gains, t.d());
    OPT(p.antiwindup_cte, t.d()); OPT(p.alpha, t.d());
    OPT(p.reset_integral_flag, t.b()); if (!t.omitted()) t.b();
    OPT(p.upper_output_saturation, t.d()); OPT(p.lower_output_saturation, t.d());
    return p;
  }
  explicit Pid1Obj(Tok &t) : c(mk(t)) {}
  static C mk(Tok &t) { return t.omitted('~') ? C() : C(par(t)); }
  CLONE(Pid1Obj)
  static V v(P x) { V r; r(0) = x; return r; }
  void exec(const std::string &op, Tok &t, Out &r) override {
    if (op == "c2") { P dt = t.d(), e = t.d(); r.v("v", v(c.compute_control(dt, e))); }
    else if (op == "c3") { P dt = t.d(), e = t.d(), de = t.d(); r.v("v", v(c.compute_control(dt, e, de))); }
    else if (op == "reset") c.reset_controller();
    else if (op == "upd") c.update_params(par(t));
    else if (op == "sg") { P a = t.d(), b = t.d(), d = t.d(); c.set_gains(a, b, d); }
    else if (op == "skp") c.set_kp(t.d());
    else if (op == "ski") c.set_ki(t.d());
    else if (op == "skd") c.set_kd(t.d());
    else if (op == "saw") c.set_anti_windup(t.d());
    else if (op == "sal") c.set_alpha(t.d());
    else if (op == "sri") c.set_reset_integral_saturation_flag(t.b());
    else if (op == "slim") { P u = t.d(), l = t.d(); if (!t.omitted()) t.b(); c.set_output_saturation(u, l); }
    else if (op == "dlim") c.disable_output_saturation();
    else if (op == "nop") {}
    else if (op == "err") { P s = t.d(), rf = t.d(); r.v("v", v(C::get_error(s, rf))); }
    else if (op == "err4") {
      P s = t.d(), rf = t.d(), sd = t.d(), rd = t.d(), pe, de;
      C::get_error(s, rf, sd, rd, pe, de);
      r.v("v", v(pe)); r.v("d", v(de));
    } else if (op == "lim") { P x = t.d(), u = t.d(), l = t.d(); if (!t.omitted()) t.b(); r.v("v", v(C::saturate_output(x, u, l))); }
    else throw std::logic_error("driver: pid1 op " + op);
  }
  void obs(Out &o, Alt &a, bool full) override {
    o.v("e", v(c.get_proportional_error())); o.v("de", v(c.get_derivative_error()));
    o.v("P", v(c.get_proportional_error_contribution())); o.v("I", v(c.get_integral_error_contribution()));
    o.v("D", v(c.get_derivative_error_contribution())); o.v("out", v(c.get_output()));
    if (!full) return;
    auto p = c.get_params();
    o.open("par");
    o.v("kp", v(p.Kp_gains)); o.v("ki", v(p.Ki_gains)); o.v("kd", v(p.Kd_gains));
    o.v("aw", v(p.antiwindup_cte)); o.v("al", v(p.alpha));
    o.b("ri", p.reset_integral_flag); o.b("prop", false);
    o.b("sat", c.get_output_saturation_flag());
    o.v("up", v(p.upper_output_saturation)); o.v("lo", v(p.lower_output_saturation));
    o.close();
    P kp, ki, kd, u, l;
    c.get_gains(kp, ki, kd);
    a.eq("kp", kp, p.Kp_gains); a.eq("ki", ki, p.Ki_gains); a.eq("kd", kd, p.Kd_gains);
    a.eq("kp", kp, c.get_kp()); a.eq("ki", ki, c.get_ki()); a.eq("kd", kd, c.get_kd());
    a.eq("aw", c.get_anti_windup(), p.antiwindup_cte); a.eq("al", c.get_alpha(), p.alpha);
    a.eq("ri", c.get_reset_integral_saturation_flag(), p.reset_integral_flag);
    c.get_saturation_limits(u, l);
    a.eq("up", u, p.upper_output_saturation); a.eq("lo", l, p.lower_output_saturation);
  }
};
