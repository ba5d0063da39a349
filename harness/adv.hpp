// Adversarial environment: a one-stage problem (T=1, nx=nu=1, Fx=Fu=0) whose cost, gap and constraint
// violation at every point the solver visits are decided by the explorer when the point is first evaluated.
// dx1 equals the gap exactly and du = -Lu/Luu, so that every trial point of a line search is a fresh point
// and all values are small dyadic numbers: ties are real ties.
#pragma once
#include <map>
#include "solvers.hpp"

namespace adv {
using namespace sv;
using pb::Prob;

struct Val { double cost, gap, con; };
enum Fault { NONE = 0, COST_NAN, COST_INF, COST_HUGE, GAP_NAN, CON_NAN };

struct Pt { double cost, X, g, lu, luu; int fault; };
// One iterate as seen by the derivatives evaluation, completed at the first trial.
struct It { double u, x1; Pt pt; bool dir = false; double dx = 0, du = 0, preg = 0, dreg = 0, lam = 0; };

struct Env : pb::Hooks {
  // answers for a new point: index of the point in order of first visit
  std::function<Pt(int /*ordinal*/, double /*x1 at which the gap will be measured*/)> answer;
  std::function<void(It&)> snapshot;   // fills direction data from the solver
  std::function<double()> cur_dx, cur_du;
  std::vector<double> alphas;
  std::map<long long, Pt> memo;
  std::vector<It> its;
  double ucur = 0, xcur = 0, x1init = 0;
  bool have_cur = false, con_feasible_row = false;
  int visited = 0;
  long calcs = 0, diffs = 0;
  bool con = false;
  static long long key(double u) { return std::llround(u * 1048576.0); }
  void begin(double u0, double x1) { ucur = u0; xcur = x1; x1init = x1; have_cur = false; its.clear(); }
  const Pt& at(double u) {
    auto f = memo.find(key(u));
    if (f != memo.end()) return f->second;
    double x1 = xcur;
    if (have_cur) {
      double a = cur_du() != 0 ? (u - ucur) / cur_du() : 0, best = 0, err = 1e9;
      for (double al : alphas) if (std::fabs(al - a) < err) { err = std::fabs(al - a); best = al; }
      const double step = best * cur_dx();
      x1 = xcur + step;
    }
    return memo[key(u)] = answer(visited++, x1);
  }
  void on_calc(int node, crocoddyl::ActionDataAbstract& d, const VectorXd&, const VectorXd& u) override {
    calcs++;
    if (node == 1) { d.cost = 0; return; }
    if (have_cur && !its.empty() && !its.back().dir && key(u[0]) != key(ucur)) { its.back().dir = true; snapshot(its.back()); }
    const Pt& p = at(u[0]);
    d.cost = p.cost; d.xnext[0] = p.X;
    if (con) d.g[0] = p.g;
  }
  void on_diff(int node, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd& u) override {
    diffs++;
    if (node == 1) { xcur = x[0]; if (!its.empty()) its.back().x1 = x[0]; d.Lx[0] = 0; d.Lxx(0, 0) = 0; return; }
    ucur = u[0]; have_cur = true;
    const Pt& p = at(u[0]);
    its.push_back(It{u[0], 0, p});
    d.Fx(0, 0) = 0; d.Fu(0, 0) = 0; d.Lx[0] = 0; d.Lxx(0, 0) = 0; d.Lxu(0, 0) = 0;
    d.Lu[0] = p.lu; d.Luu(0, 0) = p.luu;
    if (con) { d.Gx(0, 0) = 0; d.Gu(0, 0) = con_feasible_row ? (p.g > 0 ? (p.g + 0.5) / (p.lu / p.luu) : 0) : 0; }
  }
};

inline Prob base_problem(bool con) {
  Prob p;
  p.x0 = VectorXd::Zero(1);
  pb::Node k = pb::Node::zero(1, 1, con ? 1 : 0);
  if (con) k.ub[0] = 0;
  p.run.push_back(k);
  p.term = pb::Node::zero(1, 1, 0);
  return p;
}

// cost, gap and constraint violation of a point
inline Val val(const Pt& p, double x1) {
  Val v; v.cost = p.cost; v.gap = std::fabs(p.X - x1); v.con = p.g > 0 ? p.g : (std::isnan(p.g) ? pb::NANV : 0);
  return v;
}
inline bool finite(const Val& v) {
  return std::isfinite(v.cost) && std::fabs(v.cost) < 1e30 && std::isfinite(v.gap) && v.gap < 1e30 && std::isfinite(v.con) && v.con < 1e30;
}

template <class S> struct Traits { static constexpr bool csqp = false, proxqp = false, con = false; static const char* name() { return "SQP"; } };
template <> struct Traits<SolverCSQP> { static constexpr bool csqp = true, proxqp = false, con = true; static const char* name() { return "CSQP"; } };
template <> struct Traits<SolverPROXQP> { static constexpr bool csqp = false, proxqp = true, con = true; static const char* name() { return "PROXQP"; } };

// Solver attached to an adversarial problem.
template <class S>
struct Rig {
  Env env; Prob p; pb::Built b; std::unique_ptr<S> sol;
  explicit Rig(bool con = Traits<S>::con) {
    p = base_problem(con); env.con = con;
    env.con_feasible_row = Traits<S>::proxqp;
    b = pb::build(p, &env);
    sol.reset(new S(b.problem));
    S* s = sol.get();
    env.cur_dx = [s] { return s->get_dx()[1][0]; };
    env.cur_du = [s] { return s->get_du()[0][0]; };
    env.snapshot = [s](It& i) { i.dx = s->get_dx()[1][0]; i.du = s->get_du()[0][0]; i.preg = s->get_preg(); i.dreg = s->get_dreg(); i.lam = lagmax(*s); };
    s->set_termination_tolerance(-1);
    if constexpr (Traits<S>::csqp) { s->set_max_qp_iters(3); s->set_rho_update_interval(1); }
    if constexpr (Traits<S>::proxqp) { s->set_eps_abs(1e-10); s->set_eps_rel(0); }
  }
  static double lagmax(const S& s) {
    double m = 0;
    for (auto& v : s.lag_mul_) for (int i = 0; i < v.size(); ++i) m = std::max(m, std::fabs(v[i]));
    if constexpr (Traits<S>::con) for (auto& v : s.y_) for (int i = 0; i < v.size(); ++i) m = std::max(m, std::fabs(v[i]));
    return m;
  }
  void set_alphas(const std::vector<double>& a) { std::streambuf* o = std::cerr.rdbuf(nullptr); sol->set_alphas(a); std::cerr.rdbuf(o); env.alphas = a; }
  bool solve(double u0, double x1, size_t n, double reg = pb::NANV, double x0guess = 0) {
    env.begin(u0, x1);
    Traj xs{VectorXd::Constant(1, x0guess), VectorXd::Constant(1, x1)}, us{VectorXd::Constant(1, u0)};
    return sol->solve(xs, us, n, false, reg);
  }
  double u() const { return sol->get_us()[0][0]; }
  double x1() const { return sol->get_xs()[1][0]; }
};
}  // namespace adv
