// Conformance driver: executes a scenario (one public call per line) against the real
// classes and records, after every call, the observable state as one JSON line.
// Doubles are written as [hi,lo], the two signed 32-bit halves of the binary64 pattern.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>

struct Tok {
  char *p;
  explicit Tok(char *s) : p(s) {}
  std::string s() {
    while (*p == ' ') p++;
    char *b = p;
    while (*p && *p != ' ' && *p != '\n') p++;
    if (b == p) throw std::logic_error("driver: missing token");
    return std::string(b, p);
  }
  double d() { return strtod(s().c_str(), nullptr); }
  int i() { return atoi(s().c_str()); }
  bool b() { return i() != 0; }
  bool omitted(char c = '_') {   // "_": the caller leaves this field or argument at its default, "~", "^": this whole record
    while (*p == ' ') p++;
    if (*p != c || (p[1] && p[1] != ' ' && p[1] != '\n')) return false;
    p++;
    return true;
  }
  bool more() { while (*p == ' ') p++; return *p && *p != '\n'; }
};

#define OPTREC(lhs, rhs, c) do { if (!t.omitted(c)) { lhs = rhs; } } while (0)
#define OPT(lhs, rhs) do { if (!t.omitted()) { lhs = rhs; } } while (0)

template <typename P, int R, int C>
Eigen::Matrix<P, R, C> mat(Tok &t) {
  Eigen::Matrix<P, R, C> m;
  for (int i = 0; i < R; i++)
    for (int j = 0; j < C; j++) m(i, j) = static_cast<P>(t.d());
  return m;
}
template <typename P> Eigen::Matrix<P, 3, 1> v3(Tok &t) { return mat<P, 3, 1>(t); }
template <typename P> Eigen::Quaternion<P> quat(Tok &t) {
  P w = t.d(), x = t.d(), y = t.d(), z = t.d();
  return Eigen::Quaternion<P>(w, x, y, z);
}

struct Out {
  std::string s;
  bool first = true;
  void raw(const char *x) { s += x; }
  void key(const char *k) {
    if (!first) s += ',';
    first = false;
    s += '"'; s += k; s += "\":";
  }
  void num(double x) {
    uint64_t u;
    memcpy(&u, &x, 8);
    char buf[40];
    snprintf(buf, sizeof buf, "[%d,%d]", (int32_t)(u >> 32), (int32_t)(u & 0xffffffffu));
    s += buf;
  }
  void open(const char *k) { key(k); s += '{'; first = true; }
  void close() { s += '}'; first = false; }
  void f(const char *k, double x) { key(k); num(x); }
  void i(const char *k, int x) { key(k); s += std::to_string(x); }
  void b(const char *k, bool x) { key(k); s += x ? "true" : "false"; }
  void str(const char *k, const std::string &x) { key(k); s += '"'; s += x; s += '"'; }
  template <typename D> void vec(const Eigen::MatrixBase<D> &v) {
    s += '[';
    for (int k = 0; k < v.size(); k++) { if (k) s += ','; num((double)v(k)); }
    s += ']';
  }
  template <typename D> void v(const char *k, const Eigen::MatrixBase<D> &x) { key(k); vec(x); }
  template <typename D> void m(const char *k, const Eigen::MatrixBase<D> &x) {
    key(k); s += '[';
    for (int r = 0; r < x.rows(); r++) { if (r) s += ','; vec(x.row(r)); }
    s += ']';
  }
  template <typename P> void q(const char *k, const Eigen::Quaternion<P> &x) {
    key(k);
    vec(Eigen::Matrix<P, 4, 1>(x.w(), x.x(), x.y(), x.z()));
  }
  void list(const char *k, const std::vector<double> &x) {
    key(k); s += '[';
    for (size_t j = 0; j < x.size(); j++) { if (j) s += ','; num(x[j]); }
    s += ']';
  }
};

// names of getter forms that disagree with each other
struct Alt {
  std::string s;
  void put(const char *n) { if (!s.empty()) s += ','; s += '"'; s += n; s += '"'; }
  template <typename D, typename E>
  void eq(const char *n, const Eigen::MatrixBase<D> &a, const Eigen::MatrixBase<E> &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) { put(n); return; }
    for (int r = 0; r < a.rows(); r++)
      for (int c = 0; c < a.cols(); c++) {
        double x = a(r, c), y = b(r, c);
        if (memcmp(&x, &y, 8)) { put(n); return; }
      }
  }
  void eq(const char *n, double x, double y) { if (memcmp(&x, &y, 8)) put(n); }
  template <typename P> void eq(const char *n, const Eigen::Quaternion<P> &a, const Eigen::Quaternion<P> &b) { eq(n, a.coeffs(), b.coeffs()); }
};

struct Obj {
  virtual ~Obj() {}
  virtual Obj *clone() const                                = 0;
  virtual void assign(const Obj &o)                         = 0;
  virtual void exec(const std::string &op, Tok &t, Out &r)  = 0;  // result fields go to r
  virtual void obs(Out &o, Alt &a, bool full)               = 0;
};
#define CLONE(T) \
  Obj *clone() const override { return new T(*this); } \
  void assign(const Obj &o) override { *this = dynamic_cast<const T &>(o); }

using Factory = std::function<Obj *(Tok &)>;
std::map<std::string, Factory> &factories();
struct Reg { Reg(const char *n, Factory f) { factories()[n] = f; } };
