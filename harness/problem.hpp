// Small optimal-control problems with known analytic structure, and the boring
// reference computations on them (no code shared with the solvers).
#pragma once
#include <Eigen/Dense>
#include <crocoddyl/core/action-base.hpp>
#include <crocoddyl/core/optctrl/shooting.hpp>
#include <crocoddyl/core/states/euclidean.hpp>
#include <limits>
#include <memory>
#include <vector>

namespace pb {
using Eigen::MatrixXd;
using Eigen::VectorXd;
const double INF = std::numeric_limits<double>::infinity();
const double NANV = std::numeric_limits<double>::quiet_NaN();
typedef std::vector<VectorXd> Traj;

// One stage, in local coordinates x in R^n, u in R^m:
//  f = A x + B u + c + nlf sin(x);  l = 1/2 x'Qx + x'Su + 1/2 u'Ru + q'x + r'u + c0 + nlx sum x^4/4 + nlu sum u^4/4
//  g = Gx x + Gu u + h + nlg |x|^2/2 ;   lb <= g <= ub
struct Node {
  int n = 1, m = 1;
  MatrixXd A, B, Q, S, R, Gx, Gu;
  VectorXd c, q, r, h, lb, ub;
  double c0 = 0, nlf = 0, nlx = 0, nlu = 0, nlg = 0;
  double hs = 1;  // factor on the reported Hessian (inexact Hessian)
  int nh = 0;     // native equality rows (to be rejected)
  // faults, applied by the model
  bool nan_dx = false;  // derivatives of the cost are NaN
  static Node zero(int n, int m, int ng) {
    Node k; k.n = n; k.m = m;
    k.A = MatrixXd::Zero(n, n); k.B = MatrixXd::Zero(n, m); k.Q = MatrixXd::Zero(n, n); k.S = MatrixXd::Zero(n, m); k.R = MatrixXd::Zero(m, m);
    k.Gx = MatrixXd::Zero(ng, n); k.Gu = MatrixXd::Zero(ng, m);
    k.c = VectorXd::Zero(n); k.q = VectorXd::Zero(n); k.r = VectorXd::Zero(m); k.h = VectorXd::Zero(ng);
    k.lb = VectorXd::Constant(ng, -INF); k.ub = VectorXd::Constant(ng, INF);
    return k;
  }
  int ng() const { return static_cast<int>(h.size()); }
  VectorXd f(const VectorXd& x, const VectorXd& u) const {
    VectorXd o = A * x + c;
    if (m) o += B * u;
    if (nlf != 0) o += nlf * x.array().sin().matrix();
    return o;
  }
  double l(const VectorXd& x, const VectorXd& u) const {
    double v = 0.5 * x.dot(Q * x) + q.dot(x) + c0 + nlx * 0.25 * x.array().square().square().sum();
    if (m) v += x.dot(S * u) + 0.5 * u.dot(R * u) + r.dot(u) + nlu * 0.25 * u.array().square().square().sum();
    return v;
  }
  double lT(const VectorXd& x) const { return 0.5 * x.dot(Q * x) + q.dot(x) + c0 + nlx * 0.25 * x.array().square().square().sum(); }
  VectorXd g(const VectorXd& x, const VectorXd& u, bool term = false) const {
    VectorXd o = Gx * x + h;
    if (m && !term) o += Gu * u;
    if (nlg != 0) o.array() += nlg * 0.5 * x.squaredNorm();
    return o;
  }
  MatrixXd fx(const VectorXd& x) const { MatrixXd J = A; if (nlf != 0) J.diagonal().array() += nlf * x.array().cos(); return J; }
  VectorXd lx(const VectorXd& x, const VectorXd& u, bool term = false) const {
    VectorXd v = Q * x + q + nlx * x.array().cube().matrix();
    if (m && !term) v += S * u;
    return v;
  }
  VectorXd lu(const VectorXd& x, const VectorXd& u) const {
    VectorXd v = S.transpose() * x + R * u + r + nlu * u.array().cube().matrix();
    return v;
  }
  MatrixXd lxx(const VectorXd& x) const { MatrixXd H = Q; H.diagonal().array() += 3 * nlx * x.array().square(); return hs * H; }
  MatrixXd luu(const VectorXd& u) const { MatrixXd H = R; H.diagonal().array() += 3 * nlu * u.array().square(); return hs * H; }
  MatrixXd lxu() const { return hs * S; }
  MatrixXd gx(const VectorXd& x) const { MatrixXd J = Gx; if (nlg != 0) for (int i = 0; i < ng(); ++i) J.row(i) += nlg * x.transpose(); return J; }
};

// Product of circles: nx = 2 ndx, x = (cos a, sin a) per coordinate.
class StateCircle : public crocoddyl::StateAbstract {
 public:
  explicit StateCircle(std::size_t n) : crocoddyl::StateAbstract(2 * n, n) {}
  VectorXd zero() const override { VectorXd x(nx_); for (std::size_t i = 0; i < ndx_; ++i) { x[2 * i] = 1; x[2 * i + 1] = 0; } return x; }
  VectorXd rand() const override { return zero(); }
  static double ang(double c, double s) { return std::atan2(s, c); }
  void diff(const Eigen::Ref<const VectorXd>& a, const Eigen::Ref<const VectorXd>& b, Eigen::Ref<VectorXd> d) const override {
    for (Eigen::Index i = 0; i < static_cast<Eigen::Index>(ndx_); ++i) {
      double e = ang(b[2 * i], b[2 * i + 1]) - ang(a[2 * i], a[2 * i + 1]);
      if (e > M_PI) e -= 2 * M_PI;
      if (e < -M_PI) e += 2 * M_PI;
      d[i] = e;
    }
  }
  void integrate(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx, Eigen::Ref<VectorXd> o) const override {
    for (Eigen::Index i = 0; i < static_cast<Eigen::Index>(ndx_); ++i) {
      double a = ang(x[2 * i], x[2 * i + 1]) + dx[i];
      o[2 * i] = std::cos(a); o[2 * i + 1] = std::sin(a);
    }
  }
  void Jdiff(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd> A, Eigen::Ref<MatrixXd> B, const crocoddyl::Jcomponent) const override { A.setZero(); A.diagonal().setConstant(-1); B.setIdentity(); }
  void Jintegrate(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd> A, Eigen::Ref<MatrixXd> B, const crocoddyl::Jcomponent, const crocoddyl::AssignmentOp) const override { A.setIdentity(); B.setIdentity(); }
  void JintegrateTransport(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd>, const crocoddyl::Jcomponent) const override {}
};

struct CallLog { long calc = 0, diff = 0; };

// What the environment may do at a model evaluation (faults, scripted answers).
struct Hooks {
  virtual ~Hooks() {}
  // called after the analytic evaluation; may overwrite data or throw
  virtual void on_calc(int /*node*/, crocoddyl::ActionDataAbstract&, const VectorXd& /*x*/, const VectorXd& /*u*/) {}
  virtual void on_diff(int /*node*/, crocoddyl::ActionDataAbstract&, const VectorXd& /*x*/, const VectorXd& /*u*/) {}
};

class Model : public crocoddyl::ActionModelAbstract {
 public:
  Node nd; int id; bool circle; Hooks* hooks = nullptr; CallLog* log = nullptr;
  Model(std::shared_ptr<crocoddyl::StateAbstract> st, const Node& k, int id_, bool circ)
      : crocoddyl::ActionModelAbstract(st, static_cast<std::size_t>(k.m), 0, static_cast<std::size_t>(k.ng()), static_cast<std::size_t>(k.nh),
                                       static_cast<std::size_t>(k.ng()), static_cast<std::size_t>(k.nh)),
        nd(k), id(id_), circle(circ) { g_lb_ = k.lb; g_ub_ = k.ub; }
  VectorXd local(const Eigen::Ref<const VectorXd>& x) const {
    if (!circle) return x;
    VectorXd a(nd.n);
    for (int i = 0; i < nd.n; ++i) a[i] = StateCircle::ang(x[2 * i], x[2 * i + 1]);
    return a;
  }
  static VectorXd embed(const VectorXd& a, bool circ) {
    if (!circ) return a;
    VectorXd x(2 * a.size());
    for (int i = 0; i < a.size(); ++i) { x[2 * i] = std::cos(a[i]); x[2 * i + 1] = std::sin(a[i]); }
    return x;
  }
  void calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    if (log) log->calc++;
    VectorXd a = local(x);
    VectorXd v = u;
    d->xnext = embed(nd.f(a, v), circle);
    d->cost = nd.l(a, v);
    if (nd.ng()) d->g = nd.g(a, v);
    if (hooks) hooks->on_calc(id, *d, x, v);
  }
  void calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const Eigen::Ref<const VectorXd>& x) override {
    if (log) log->calc++;
    VectorXd a = local(x);
    VectorXd v = VectorXd::Zero(nd.m);
    d->cost = nd.lT(a);
    if (nd.ng()) d->g = nd.g(a, v, true);
    if (hooks) hooks->on_calc(id, *d, x, VectorXd());
  }
  void calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    if (log) log->diff++;
    VectorXd a = local(x);
    VectorXd v = u;
    d->Fx = nd.fx(a); d->Lx = nd.lx(a, v); d->Lxx = nd.lxx(a);
    if (nd.m) { d->Fu = nd.B; d->Lu = nd.lu(a, v); d->Lxu = nd.lxu(); d->Luu = nd.luu(v); }
    if (nd.ng()) { d->Gx = nd.gx(a); if (nd.m) d->Gu = nd.Gu; }
    if (nd.nan_dx) d->Lx[0] = NANV;
    if (hooks) hooks->on_diff(id, *d, x, v);
  }
  void calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const Eigen::Ref<const VectorXd>& x) override {
    if (log) log->diff++;
    VectorXd a = local(x);
    VectorXd v = VectorXd::Zero(nd.m);
    d->Lx = nd.lx(a, v, true); d->Lxx = nd.lxx(a);
    if (nd.ng()) d->Gx = nd.gx(a);
    if (nd.nan_dx) d->Lx[0] = NANV;
    if (hooks) hooks->on_diff(id, *d, x, VectorXd());
  }
};

struct Prob {
  std::vector<Node> run; Node term; VectorXd x0; bool circle = false;
  int T() const { return static_cast<int>(run.size()); }
  int n() const { return term.n; }
  int nus() const { int s = 0; for (auto& k : run) s += k.m; return s; }
  int ngs() const { int s = term.ng(); for (auto& k : run) s += k.ng(); return s; }
  const Node& node(int t) const { return t < T() ? run[static_cast<size_t>(t)] : term; }
};

struct Built {
  std::shared_ptr<crocoddyl::ShootingProblem> problem;
  std::shared_ptr<crocoddyl::StateAbstract> state;
  std::vector<std::shared_ptr<Model>> models;  // T + 1
};
inline std::shared_ptr<crocoddyl::StateAbstract> make_state(int n, bool circle) {
  if (circle) return std::make_shared<StateCircle>(static_cast<std::size_t>(n));
  return std::make_shared<crocoddyl::StateVector>(static_cast<std::size_t>(n));
}
inline Built build(const Prob& p, Hooks* hooks = nullptr, CallLog* log = nullptr) {
  Built b;
  b.state = make_state(p.n(), p.circle);
  std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>> r;
  for (int t = 0; t <= p.T(); ++t) {
    auto m = std::make_shared<Model>(b.state, p.node(t), t, p.circle);
    m->hooks = hooks; m->log = log;
    b.models.push_back(m);
    if (t < p.T()) r.push_back(m);
  }
  b.problem = std::make_shared<crocoddyl::ShootingProblem>(Model::embed(p.x0, p.circle), r, b.models.back());
  return b;
}

// ---- trajectories in local coordinates --------------------------------------------------
inline VectorXd loc(const Prob& p, const VectorXd& x) {
  if (!p.circle) return x;
  VectorXd a(p.n());
  for (int i = 0; i < p.n(); ++i) a[i] = StateCircle::ang(x[2 * i], x[2 * i + 1]);
  return a;
}
inline VectorXd wrap(const Prob& p, VectorXd d) {
  if (p.circle) for (int i = 0; i < d.size(); ++i) d[i] = std::remainder(d[i], 2 * M_PI);
  return d;
}
struct Eval {
  double cost = 0, gap1 = 0, gapinf = 0, con1 = 0, coninf = 0;
  std::vector<VectorXd> gap;  // T+1, gap[0] w.r.t. x0
  std::vector<VectorXd> g;    // T+1
  bool finite = true;
};
inline double viol1(double v, double lb, double ub) { double s = 0; if (v < lb) s += lb - v; if (v > ub) s += v - ub; return s; }
inline Eval evaluate(const Prob& p, const Traj& xs, const Traj& us) {
  Eval e;
  const int T = p.T();
  e.gap.push_back(wrap(p, p.x0 - loc(p, xs[0])));
  for (int t = 0; t < T; ++t) {
    const Node& k = p.run[static_cast<size_t>(t)];
    VectorXd x = loc(p, xs[static_cast<size_t>(t)]), u = us[static_cast<size_t>(t)];
    e.cost += k.l(x, u);
    e.gap.push_back(wrap(p, k.f(x, u) - loc(p, xs[static_cast<size_t>(t) + 1])));
    e.g.push_back(k.g(x, u));
  }
  VectorXd xT = loc(p, xs.back());
  e.cost += p.term.lT(xT);
  e.g.push_back(p.term.g(xT, VectorXd::Zero(p.term.m), true));
  for (int t = 0; t <= T; ++t) {
    const Node& k = p.node(t);
    e.gap1 += e.gap[static_cast<size_t>(t)].lpNorm<1>();
    for (int i = 0; i < e.gap[static_cast<size_t>(t)].size(); ++i) e.gapinf = std::max(e.gapinf, std::fabs(e.gap[static_cast<size_t>(t)][i]));
    for (int i = 0; i < k.ng(); ++i) { double v = viol1(e.g[static_cast<size_t>(t)][i], k.lb[i], k.ub[i]); e.con1 += v; e.coninf = std::max(e.coninf, v); }
  }
  for (auto& x : xs) e.finite = e.finite && x.allFinite();
  for (auto& u : us) e.finite = e.finite && u.allFinite();
  e.finite = e.finite && std::isfinite(e.cost) && std::isfinite(e.gap1) && std::isfinite(e.con1);
  return e;
}

// Derivatives of the problem at a trajectory.
struct Lin { std::vector<MatrixXd> Fx, Fu, Lxx, Lxu, Luu, Gx, Gu; std::vector<VectorXd> Lx, Lu; };
inline Lin linearise(const Prob& p, const Traj& xs, const Traj& us) {
  Lin L;
  for (int t = 0; t <= p.T(); ++t) {
    const Node& k = p.node(t);
    bool term = t == p.T();
    VectorXd x = loc(p, xs[static_cast<size_t>(t)]);
    VectorXd u = term ? VectorXd(VectorXd::Zero(k.m)) : us[static_cast<size_t>(t)];
    L.Lx.push_back(k.lx(x, u, term)); L.Lxx.push_back(k.lxx(x)); L.Gx.push_back(k.gx(x));
    if (!term) { L.Fx.push_back(k.fx(x)); L.Fu.push_back(k.B); L.Lu.push_back(k.lu(x, u)); L.Lxu.push_back(k.lxu()); L.Luu.push_back(k.luu(u)); L.Gu.push_back(k.Gu); }
  }
  return L;
}

// Stage-wise QP in stacked form, variables w = (dx_1..dx_T, du_0..du_{T-1}), dx_0 = 0:
//   min 1/2 w'Hw + h'w   s.t.  Eq w = eq (dynamics),  l <= C w <= u
struct Dense {
  MatrixXd H, Eq, C; VectorXd h, eq, l, u;
  int nxv, nuv;
  std::vector<int> ix, iu;  // start of dx_t (t=1..T at index t), du_t
  std::vector<int> row;     // first row of node t in C
};
inline Dense stack(const Prob& p, const Lin& L, const Eval& e, double preg, double dreg) {
  Dense D;
  const int T = p.T(), n = p.n();
  D.nxv = n * T; D.nuv = p.nus();
  const int N = D.nxv + D.nuv;
  D.H = MatrixXd::Zero(N, N); D.h = VectorXd::Zero(N);
  D.Eq = MatrixXd::Zero(n * T, N); D.eq = VectorXd::Zero(n * T);
  D.C = MatrixXd::Zero(p.ngs(), N); D.l = VectorXd::Constant(p.ngs(), -INF); D.u = VectorXd::Constant(p.ngs(), INF);
  D.ix.assign(static_cast<size_t>(T) + 1, -1); D.iu.assign(static_cast<size_t>(T), 0); D.row.assign(static_cast<size_t>(T) + 1, 0);
  int o = D.nxv;
  for (int t = 0; t < T; ++t) { D.iu[static_cast<size_t>(t)] = o; o += p.run[static_cast<size_t>(t)].m; }
  for (int t = 1; t <= T; ++t) D.ix[static_cast<size_t>(t)] = (t - 1) * n;
  int r = 0;
  for (int t = 0; t <= T; ++t) {
    const size_t s = static_cast<size_t>(t);
    const Node& k = p.node(t);
    const int m = t < T ? k.m : 0;
    if (t > 0) {
      D.H.block(D.ix[s], D.ix[s], n, n) += L.Lxx[s];
      D.H.block(D.ix[s], D.ix[s], n, n).diagonal().array() += preg;
      D.h.segment(D.ix[s], n) = L.Lx[s];
    }
    if (m) {
      D.H.block(D.iu[s], D.iu[s], m, m) += L.Luu[s];
      D.H.block(D.iu[s], D.iu[s], m, m).diagonal().array() += dreg;
      D.h.segment(D.iu[s], m) = L.Lu[s];
      if (t > 0) { D.H.block(D.ix[s], D.iu[s], n, m) = L.Lxu[s]; D.H.block(D.iu[s], D.ix[s], m, n) = L.Lxu[s].transpose(); }
    }
    if (t < T) {
      D.Eq.block(t * n, D.ix[s + 1], n, n).setIdentity();
      if (t > 0) D.Eq.block(t * n, D.ix[s], n, n) = -L.Fx[s];
      if (m) D.Eq.block(t * n, D.iu[s], n, m) = -L.Fu[s];
      D.eq.segment(t * n, n) = e.gap[s + 1];
    }
    D.row[s] = r;
    for (int i = 0; i < k.ng(); ++i, ++r) {
      if (t > 0) D.C.block(r, D.ix[s], 1, n) = L.Gx[s].row(i);
      if (m) D.C.block(r, D.iu[s], 1, m) = L.Gu[s].row(i);
      D.l[r] = k.lb[i] - e.g[s][i];
      D.u[r] = k.ub[i] - e.g[s][i];
    }
  }
  return D;
}
// Equality-constrained QP: returns false if the KKT matrix is (nearly) singular.
inline bool solve_eq(const MatrixXd& H, const VectorXd& h, const MatrixXd& E, const VectorXd& b, VectorXd& w, VectorXd& lam) {
  const Eigen::Index N = H.rows(), M = E.rows();
  MatrixXd K = MatrixXd::Zero(N + M, N + M);
  K.topLeftCorner(N, N) = H; K.topRightCorner(N, M) = E.transpose(); K.bottomLeftCorner(M, N) = E;
  VectorXd rhs(N + M);
  rhs.head(N) = -h; rhs.tail(M) = b;
  Eigen::FullPivLU<MatrixXd> lu(K);
  lu.setThreshold(1e-11);
  if (lu.rank() < N + M) return false;
  VectorXd s = lu.solve(rhs);
  for (int k = 0; k < 3; ++k) s += lu.solve(rhs - K * s);  // refinement
  w = s.head(N); lam = s.tail(M);
  return true;
}

// Exhaustive active-set enumeration.  Returns true if a KKT point (unique for convex QPs) was found.
inline bool solve_qp(const Dense& D, VectorXd& w, VectorXd& lam, VectorXd& y, double tol = 1e-9) {
  const int m = static_cast<int>(D.l.size());
  long total = 1;
  for (int i = 0; i < m; ++i) total *= 3;
  double best = INF; bool ok = false;
  for (long code = 0; code < total; ++code) {
    std::vector<int> act; std::vector<double> val; std::vector<int> sgn;
    long c = code; bool valid = true;
    for (int i = 0; i < m && valid; ++i) {
      int s = static_cast<int>(c % 3); c /= 3;
      bool eq = D.u[i] - D.l[i] <= 1e-12;
      if (eq) { if (s != 1) valid = false; else { act.push_back(i); val.push_back(D.u[i]); sgn.push_back(0); } continue; }
      if (s == 1) { if (!std::isfinite(D.u[i])) valid = false; else { act.push_back(i); val.push_back(D.u[i]); sgn.push_back(1); } }
      if (s == 2) { if (!std::isfinite(D.l[i])) valid = false; else { act.push_back(i); val.push_back(D.l[i]); sgn.push_back(-1); } }
    }
    if (!valid) continue;
    const Eigen::Index ne = D.Eq.rows(), na = static_cast<Eigen::Index>(act.size());
    MatrixXd E(ne + na, D.H.cols()); VectorXd b(ne + na);
    E.topRows(ne) = D.Eq; b.head(ne) = D.eq;
    for (Eigen::Index i = 0; i < na; ++i) { E.row(ne + i) = D.C.row(act[static_cast<size_t>(i)]); b[ne + i] = val[static_cast<size_t>(i)]; }
    VectorXd ww, ll;
    if (!solve_eq(D.H, D.h, E, b, ww, ll)) continue;
    bool good = true;
    for (Eigen::Index i = 0; i < na && good; ++i) { double v = ll[ne + i]; if (sgn[static_cast<size_t>(i)] == 1 && v < -tol) good = false; if (sgn[static_cast<size_t>(i)] == -1 && v > tol) good = false; }
    if (!good) continue;
    VectorXd cw = D.C * ww;
    for (int i = 0; i < m && good; ++i) if (cw[i] < D.l[i] - tol || cw[i] > D.u[i] + tol) good = false;
    if (!good) continue;
    double obj = 0.5 * ww.dot(D.H * ww) + D.h.dot(ww);
    if (obj < best) {
      best = obj; ok = true; w = ww; lam = ll.head(ne); y = VectorXd::Zero(m);
      for (Eigen::Index i = 0; i < na; ++i) y[act[static_cast<size_t>(i)]] = ll[ne + i];
    }
  }
  return ok;
}

// Reduced gradient and constraint Jacobian with respect to the controls (dynamics eliminated).
inline void reduced(const Prob& p, const Lin& L, VectorXd& grad, MatrixXd& J) {
  const int T = p.T(), n = p.n(), M = p.nus();
  MatrixXd X = MatrixXd::Zero(n, M);  // d x_t / d u
  grad = VectorXd::Zero(M); J = MatrixXd::Zero(p.ngs(), M);
  int o = 0, r = 0;
  for (int t = 0; t <= T; ++t) {
    const size_t s = static_cast<size_t>(t);
    const Node& k = p.node(t);
    const int m = t < T ? k.m : 0;
    grad += X.transpose() * L.Lx[s];
    if (m) grad.segment(o, m) += L.Lu[s];
    for (int i = 0; i < k.ng(); ++i, ++r) { J.row(r) = L.Gx[s].row(i) * X; if (m) J.block(r, o, 1, m) += L.Gu[s].row(i); }
    if (t < T) { MatrixXd Xn = L.Fx[s] * X; if (m) Xn.middleCols(o, m) += L.Fu[s]; X = Xn; o += m; }
  }
}

// Smallest first-order residual over all multipliers with the right signs on rows that are (nearly) active.
// delta: how close a row must be to its bound to carry a multiplier.
inline double stationarity(const Prob& p, const Traj& xs, const Traj& us, double delta) {
  Eval e = evaluate(p, xs, us);
  Lin L = linearise(p, xs, us);
  VectorXd g; MatrixXd J;
  reduced(p, L, g, J);
  std::vector<std::pair<int, int>> rows;  // row, sign (0 free)
  int r = 0;
  for (int t = 0; t <= p.T(); ++t) {
    const Node& k = p.node(t);
    for (int i = 0; i < k.ng(); ++i, ++r) {
      double v = e.g[static_cast<size_t>(t)][i];
      bool au = std::isfinite(k.ub[i]) && std::fabs(v - k.ub[i]) <= delta, al = std::isfinite(k.lb[i]) && std::fabs(v - k.lb[i]) <= delta;
      if (au && al) rows.push_back({r, 0}); else if (au) rows.push_back({r, 1}); else if (al) rows.push_back({r, -1});
    }
  }
  double best = INF;
  const size_t R = rows.size();
  for (size_t mask = 0; mask < (size_t(1) << R); ++mask) {
    std::vector<size_t> sel;
    for (size_t i = 0; i < R; ++i) if (mask >> i & 1) sel.push_back(i);
    VectorXd res = g;
    if (!sel.empty()) {
      MatrixXd A(J.cols(), static_cast<Eigen::Index>(sel.size()));
      for (size_t i = 0; i < sel.size(); ++i) A.col(static_cast<Eigen::Index>(i)) = J.row(rows[sel[i]].first).transpose();
      VectorXd y = A.completeOrthogonalDecomposition().solve(-g);
      bool ok = true;
      for (size_t i = 0; i < sel.size(); ++i) if (rows[sel[i]].second * y[static_cast<Eigen::Index>(i)] < -1e-7) ok = false;
      if (!ok) continue;
      res += A * y;
    }
    double v = 0;
    for (int i = 0; i < res.size(); ++i) v = std::max(v, std::fabs(res[i]));
    if (!res.allFinite()) v = INF;
    best = std::min(best, v);
  }
  return best;
}
// How much a per-node residual of size 1 in the stage-wise KKT system can show up in the reduced gradient.
inline double kkt_gain(const Prob& p, const Lin& L) {
  double gain = 1, acc = 1;
  for (int t = p.T() - 1; t >= 0; --t) {
    const size_t s = static_cast<size_t>(t);
    double fu = L.Fu[s].size() ? L.Fu[s].cwiseAbs().colwise().sum().maxCoeff() : 0;
    double fx = L.Fx[s].cwiseAbs().colwise().sum().maxCoeff();
    gain = std::max(gain, 1 + fu * acc);
    acc = 1 + fx * acc;
  }
  return gain;
}
inline std::string show(const Traj& v) { std::ostringstream o; o.precision(8); for (auto& x : v) o << "[" << x.transpose() << "]"; return o.str(); }

}  // namespace pb
