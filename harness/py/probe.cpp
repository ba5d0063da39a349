// A window on the C++ solvers that does not go through the bindings under test: objects are created, configured, run and
// read with direct C++ calls.  Python only holds the pointers.
#include <boost/python.hpp>
#include <eigenpy/eigenpy.hpp>
#include <functional>
#include <map>
#include "gen.hpp"
#include "mim_solvers/csqp.hpp"
#include "mim_solvers/csqp_proxqp.hpp"
#include "mim_solvers/ddp.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/sqp.hpp"
#include "mim_solvers/utils/callbacks.hpp"
namespace bp = boost::python;
using namespace mim_solvers;
using pb::Traj;
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef crocoddyl::SolverAbstract Abs;

static bp::list lst(const std::vector<VectorXd>& v) { bp::list l; for (auto& x : v) l.append(x); return l; }
template <class M> static bp::list lstm(const std::vector<M>& v) { bp::list l; for (auto& x : v) l.append(MatrixXd(x)); return l; }
static bp::object conv(double v) { return bp::object(v); }
static bp::object conv(bool v) { return bp::object(v); }
static bp::object conv(std::size_t v) { return bp::object(v); }
static bp::object conv(int v) { return bp::object(v); }
static bp::object conv(const VectorXd& v) { return bp::object(v); }
static bp::object conv(const Eigen::Vector2d& v) { return bp::object(VectorXd(v)); }
static bp::object conv(const MatrixXd& v) { return bp::object(v); }
static bp::object conv(const std::vector<VectorXd>& v) { return lst(v); }
static bp::object conv(const std::vector<MatrixXd>& v) { return lstm(v); }
static bp::object conv(const std::vector<SolverDDP::MatrixXdRowMajor>& v) { return lstm(v); }
static bp::object conv(const std::vector<double>& v) { bp::list l; for (double d : v) l.append(d); return l; }
static Traj traj(const bp::object& o) { Traj t; for (bp::ssize_t i = 0; i < bp::len(o); ++i) t.push_back(bp::extract<VectorXd>(o[i])); return t; }
template <class V> static V from(const bp::object& o) { return bp::extract<V>(o); }
template <> Traj from<Traj>(const bp::object& o) { return traj(o); }
template <> std::vector<double> from<std::vector<double>>(const bp::object& o) { std::vector<double> t; for (bp::ssize_t i = 0; i < bp::len(o); ++i) t.push_back(bp::extract<double>(o[i])); return t; }

typedef std::function<bp::object(Abs&)> Get;
typedef std::function<void(Abs&, bp::object)> Set;
typedef std::function<bp::object(Abs&, bp::list)> Call;
struct Table { std::map<std::string, Get> get; std::map<std::string, Set> set; std::map<std::string, Call> call; std::function<std::shared_ptr<Abs>(std::shared_ptr<crocoddyl::ShootingProblem>)> make; std::function<bp::object(std::shared_ptr<Abs>)> wrap; };
static std::map<std::string, Table> tables;
#define G(S, name, expr) t.get[name] = [](Abs& a) { S& s = dynamic_cast<S&>(a); (void)s; return conv(expr); }
#define P(S, name, type, expr) t.set[name] = [](Abs& a, bp::object o) { S& s = dynamic_cast<S&>(a); type v = from<type>(o); (void)s; expr; }
#define C(S, name, expr) t.call[name] = [](Abs& a, bp::list l) { S& s = dynamic_cast<S&>(a); (void)l; (void)s; return expr; }
static bp::object none() { return bp::object(); }

template <class S> static void common(Table& t) {
  G(S, "cost", s.SolverAbstract::get_cost()); G(S, "iter", s.get_iter()); G(S, "stepLength", s.get_steplength());
  G(S, "stop", s.get_stop()); G(S, "d", s.get_d()); G(S, "isFeasible", s.get_is_feasible()); G(S, "dV", s.get_dV()); G(S, "dVexp", s.get_dVexp());
  G(S, "preg", s.get_preg()); G(S, "dreg", s.get_dreg()); P(S, "preg", double, s.set_preg(v)); P(S, "dreg", double, s.set_dreg(v));
  G(S, "th_acceptStep", s.get_th_acceptstep()); P(S, "th_acceptStep", double, s.set_th_acceptstep(v));
  G(S, "th_stop", s.get_th_stop()); P(S, "th_stop", double, s.set_th_stop(v));
  G(S, "th_gapTol", s.get_th_gaptol()); P(S, "th_gapTol", double, s.set_th_gaptol(v));
  G(S, "xs", s.SolverAbstract::get_xs()); G(S, "us", s.SolverAbstract::get_us()); P(S, "xs", Traj, s.set_xs(v)); P(S, "us", Traj, s.set_us(v));
  G(S, "fs", s.SolverAbstract::get_fs());
  G(S, "Vxx", s.get_Vxx()); G(S, "Vx", s.get_Vx()); G(S, "Qxx", s.get_Qxx()); G(S, "Qxu", s.get_Qxu()); G(S, "Quu", s.get_Quu()); G(S, "Qx", s.get_Qx()); G(S, "Qu", s.get_Qu()); G(S, "K", s.get_K()); G(S, "k", s.get_k());
  G(S, "reg_incFactor", s.get_reg_incfactor()); P(S, "reg_incFactor", double, s.set_reg_incfactor(v));
  G(S, "reg_decFactor", s.get_reg_decfactor()); P(S, "reg_decFactor", double, s.set_reg_decfactor(v));
  G(S, "reg_min", s.get_reg_min()); P(S, "reg_min", double, s.set_reg_min(v));
  G(S, "reg_max", s.get_reg_max()); P(S, "reg_max", double, s.set_reg_max(v));
  G(S, "th_stepDec", s.get_th_stepdec()); P(S, "th_stepDec", double, s.set_th_stepdec(v));
  G(S, "th_stepInc", s.get_th_stepinc()); P(S, "th_stepInc", double, s.set_th_stepinc(v));
  G(S, "th_grad", s.get_th_grad()); P(S, "th_grad", double, s.set_th_grad(v));
  G(S, "alphas", s.get_alphas()); P(S, "alphas", std::vector<double>, s.set_alphas(v));
  G(S, "KKT", s.get_KKT());
  G(S, "termination_tolerance", s.get_termination_tolerance()); P(S, "termination_tolerance", double, s.set_termination_tolerance(v));
  G(S, "lag_mul", s.lag_mul_);
  t.call["solve"] = [](Abs& a, bp::list l) { S& s = dynamic_cast<S&>(a);
    switch (bp::len(l)) {  // the C++ defaults fill the rest
      case 0: return bp::object(s.solve());
      case 1: return bp::object(s.solve(traj(l[0])));
      case 2: return bp::object(s.solve(traj(l[0]), traj(l[1])));
      case 3: return bp::object(s.solve(traj(l[0]), traj(l[1]), from<std::size_t>(l[2])));
      case 4: return bp::object(s.solve(traj(l[0]), traj(l[1]), from<std::size_t>(l[2]), from<bool>(l[3])));
      default: return bp::object(s.solve(traj(l[0]), traj(l[1]), from<std::size_t>(l[2]), from<bool>(l[3]), from<double>(l[4])));
    } };
  t.call["setCandidate"] = [](Abs& a, bp::list l) { S& s = dynamic_cast<S&>(a); s.setCandidate(traj(l[0]), traj(l[1]), from<bool>(l[2])); return none(); };
  C(S, "computeDirection", (s.computeDirection(from<bool>(l[0])), none()));
  C(S, "computeDirection0", (static_cast<SolverDDP&>(s).computeDirection(), none()));  // the default argument of the base class
  C(S, "tryStep", conv(s.tryStep(from<double>(l[0]))));
  C(S, "tryStep0", conv(static_cast<SolverDDP&>(s).tryStep()));
  C(S, "stoppingCriteria", conv(s.stoppingCriteria())); C(S, "expectedImprovement", conv(s.expectedImprovement())); C(S, "calcDiff", conv(s.calcDiff()));
  C(S, "backwardPass", (s.backwardPass(), none())); C(S, "forwardPass", (s.forwardPass(from<double>(l[0])), none()));
  t.make = [](std::shared_ptr<crocoddyl::ShootingProblem> p) { return std::make_shared<S>(p); };
  t.wrap = [](std::shared_ptr<Abs> p) { return bp::object(std::dynamic_pointer_cast<S>(p)); };
}
template <class S> static void trys(Table& t) {
  G(S, "xs_try", s.xs_try_); G(S, "us_try", s.us_try_); G(S, "cost_try", s.cost_try_); G(S, "fs_try", s.fs_try_);
  G(S, "dx", s.get_dx()); G(S, "du", s.get_du());
  G(S, "use_filter_line_search", s.get_use_filter_line_search()); P(S, "use_filter_line_search", bool, s.set_use_filter_line_search(v));
}
template <class S> static void filt(Table& t) { G(S, "filter_size", s.get_filter_size()); P(S, "filter_size", std::size_t, s.set_filter_size(v)); }
static void fill() {
  { Table& t = tables["DDP"]; common<SolverDDP>(t); }
  { typedef SolverFDDP S; Table& t = tables["FDDP"]; common<S>(t); filt<S>(t);
    G(S, "use_filter_line_search", s.get_use_filter_line_search()); P(S, "use_filter_line_search", bool, s.set_use_filter_line_search(v));
    G(S, "th_acceptNegStep", s.get_th_acceptnegstep()); P(S, "th_acceptNegStep", double, s.set_th_acceptnegstep(v));
    C(S, "updateExpectedImprovement", (s.updateExpectedImprovement(), none())); }
  { typedef SolverSQP S; Table& t = tables["SQP"]; common<S>(t); trys<S>(t); filt<S>(t);
    G(S, "merit", s.get_merit());
    G(S, "extra_iteration_for_last_kkt", s.get_extra_iteration_for_last_kkt()); P(S, "extra_iteration_for_last_kkt", bool, s.set_extra_iteration_for_last_kkt(v));
    G(S, "mu_dynamic", s.get_mu_dynamic()); P(S, "mu_dynamic", double, s.set_mu_dynamic(v)); }
  { typedef SolverCSQP S; Table& t = tables["CSQP"]; common<S>(t); trys<S>(t); filt<S>(t);
    G(S, "merit", s.get_merit());
    G(S, "extra_iteration_for_last_kkt", s.get_extra_iteration_for_last_kkt()); P(S, "extra_iteration_for_last_kkt", bool, s.set_extra_iteration_for_last_kkt(v));
    G(S, "mu_dynamic", s.get_mu_dynamic()); P(S, "mu_dynamic", double, s.set_mu_dynamic(v));
    G(S, "mu_constraint", s.get_mu_constraint()); P(S, "mu_constraint", double, s.set_mu_constraint(v));
    G(S, "lag_mul_inf_norm_coef", s.get_lag_mul_inf_norm_coef()); P(S, "lag_mul_inf_norm_coef", double, s.set_lag_mul_inf_norm_coef(v));
    G(S, "norm_primal", s.get_norm_primal()); G(S, "norm_dual", s.get_norm_dual()); G(S, "norm_primal_rel", s.norm_primal_rel_); G(S, "norm_dual_rel", s.norm_dual_rel_);
    G(S, "rho_vec", s.get_rho_vec()); G(S, "y", s.get_y()); G(S, "z", s.get_z());
    G(S, "reset_y", s.reset_y_); P(S, "reset_y", bool, s.reset_y_ = v);
    G(S, "reset_rho", s.reset_rho_); P(S, "reset_rho", bool, s.reset_rho_ = v);
    G(S, "update_rho_with_heuristic", s.update_rho_with_heuristic_); P(S, "update_rho_with_heuristic", bool, s.update_rho_with_heuristic_ = v);
    G(S, "remove_reg", s.remove_reg_); P(S, "remove_reg", bool, s.remove_reg_ = v);
    G(S, "with_qp_callbacks", s.getQPCallbacks()); P(S, "with_qp_callbacks", bool, s.setQPCallbacks(v));
    G(S, "dx_tilde", s.get_dx_tilde()); G(S, "du_tilde", s.get_du_tilde());
    G(S, "constraint_norm", s.get_constraint_norm()); G(S, "gap_norm", s.get_gap_norm()); G(S, "qp_iters", s.get_qp_iters());
    G(S, "eps_abs", s.get_eps_abs()); P(S, "eps_abs", double, s.set_eps_abs(v));
    G(S, "eps_rel", s.get_eps_rel()); P(S, "eps_rel", double, s.set_eps_rel(v));
    G(S, "rho_sparse", s.get_rho_sparse()); P(S, "rho_sparse", double, s.set_rho_sparse(v));
    G(S, "equality_qp_initial_guess", s.get_equality_qp_initial_guess()); P(S, "equality_qp_initial_guess", bool, s.set_equality_qp_initial_guess(v));
    G(S, "sigma", s.get_sigma()); P(S, "sigma", double, s.set_sigma(v));
    G(S, "alpha", s.get_alpha()); P(S, "alpha", double, s.set_alpha(v));
    G(S, "max_qp_iters", s.get_max_qp_iters()); P(S, "max_qp_iters", int, s.set_max_qp_iters(v));
    G(S, "rho_update_interval", s.get_rho_update_interval()); P(S, "rho_update_interval", std::size_t, s.set_rho_update_interval(v));
    G(S, "adaptive_rho_tolerance", s.get_adaptive_rho_tolerance()); P(S, "adaptive_rho_tolerance", std::size_t, s.set_adaptive_rho_tolerance(v));
    G(S, "max_solve_time", s.get_max_solve_time()); P(S, "max_solve_time", double, s.set_max_solve_time(v));
    G(S, "max_solve_time_reached", s.get_max_solve_time_reached());
    C(S, "calc", (s.calc(from<bool>(l[0])), none())); C(S, "update_lagrangian_parameters", (s.update_lagrangian_parameters(from<int>(l[0])), none()));
    C(S, "backwardPass_without_constraints", (s.backwardPass_without_constraints(), none())); C(S, "backwardPass_without_rho_update", (s.backwardPass_without_rho_update(), none()));
    C(S, "update_rho_vec", (s.update_rho_vec(from<int>(l[0])), none())); C(S, "checkKKTConditions", (s.checkKKTConditions(), none())); }
  { typedef SolverPROXQP S; Table& t = tables["PROXQP"]; common<S>(t); trys<S>(t);
    G(S, "constraint_norm", s.get_constraint_norm()); G(S, "gap_norm", s.get_gap_norm()); G(S, "qp_iters", s.get_qp_iters()); G(S, "KKT_norm", s.get_KKT());
    G(S, "with_callbacks", s.getCallbacks()); P(S, "with_callbacks", bool, s.setCallbacks(v));
    G(S, "P", s.get_P()); G(S, "A", s.get_A()); G(S, "C", s.get_C()); G(S, "q", s.get_q()); G(S, "b", s.get_b()); G(S, "l", s.get_l()); G(S, "u", s.get_u()); G(S, "y", s.get_y());
    G(S, "eps_abs", s.get_eps_abs()); P(S, "eps_abs", double, s.set_eps_abs(v));
    G(S, "max_qp_iters", s.get_max_qp_iters()); P(S, "max_qp_iters", int, s.set_max_qp_iters(v));
    C(S, "calc", (s.calc(from<bool>(l[0])), none())); }
}
#undef G
#undef P
#undef C
static Table& tab(const std::string& n) { auto f = tables.find(n); if (f == tables.end()) throw std::runtime_error("no such solver"); return f->second; }
static bp::list readable(const std::string& n) { bp::list l; for (auto& k : tab(n).get) l.append(k.first); return l; }
static bp::list writable(const std::string& n) { bp::list l; for (auto& k : tab(n).set) l.append(k.first); return l; }
static bp::object get(const std::string& n, Abs& a, const std::string& q) { return tab(n).get.at(q)(a); }
// C++ exceptions are told apart from everything else
static bool guarded(const std::function<void()>& f) { try { f(); return true; } catch (std::exception&) { return false; } }
static bool set(const std::string& n, Abs& a, const std::string& q, bp::object v) { return guarded([&] { tab(n).set.at(q)(a, v); }); }
static bp::tuple call(const std::string& n, Abs& a, const std::string& q, bp::list v) { bp::object r; const bool ok = guarded([&] { r = tab(n).call.at(q)(a, v); }); return bp::make_tuple(ok, r); }
static bp::object make(const std::string& n, std::shared_ptr<crocoddyl::ShootingProblem> p) {
  std::streambuf* e = std::cerr.rdbuf(nullptr);
  std::shared_ptr<Abs> s; std::string what;
  try { s = tab(n).make(p); } catch (std::exception& x) { what = x.what(); }
  std::cerr.rdbuf(e);
  if (!s) throw std::runtime_error(what);
  return tab(n).wrap(s);
}

// ---- problems -----------------------------------------------------------------------------------------------------
// outcomes of the first distinct terminal points: 0 natural, 1 NaN, 2 lower cost, 3 higher cost, 4 exception
struct Env : pb::Hooks {
  std::vector<int> pattern; std::map<std::vector<double>, int> memo; bp::list log; bool logging = false; int term = 0;
  long left = -1;  // the evaluation with this number fails with an exception
  void fail() { if (left >= 0 && left-- == 0) throw std::runtime_error("model"); }
  int outcome(const VectorXd& x) {
    std::vector<double> k; for (int i = 0; i < x.size(); ++i) k.push_back(std::nearbyint(x[i] * 1e7));
    auto f = memo.find(k); if (f != memo.end()) return f->second;
    const size_t i = memo.size(); return memo[k] = i < pattern.size() ? pattern[i] : 0;
  }
  void on_calc(int node, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd& u) override {
    if (logging) log.append(bp::make_tuple("calc", node, VectorXd(x), VectorXd(u)));
    fail();
    if (node != term || pattern.empty()) return;
    switch (outcome(x)) { case 1: d.cost = std::numeric_limits<double>::quiet_NaN(); break; case 2: d.cost -= 50; break; case 3: d.cost += 50; break; case 4: throw std::runtime_error("model"); }
  }
  void on_diff(int node, crocoddyl::ActionDataAbstract&, const VectorXd& x, const VectorXd& u) override {
    if (logging) log.append(bp::make_tuple("diff", node, VectorXd(x), VectorXd(u)));
    fail();
  }
};
struct Problem {
  pb::Prob p; Env env; pb::Built b;
  // spec: T n variant hs circle bad, m per node, rows per node, nonlinearities
  Problem(bp::dict s) {
    pb::Shape h; h.T = bp::extract<int>(s["T"]); h.n = bp::extract<int>(s["n"]); h.variant = bp::extract<int>(s["variant"]); h.circle = bp::extract<bool>(s["circle"]);
    for (int i = 0; i < bp::len(s["m"]); ++i) h.m.push_back(bp::extract<int>(s["m"][i]));
    for (int i = 0; i < bp::len(s["rows"]); ++i) { h.rows.push_back({}); for (int j = 0; j < bp::len(s["rows"][i]); ++j) h.rows.back().push_back(static_cast<pb::Row>(int(bp::extract<int>(s["rows"][i][j])))); }
    h.nlf = bp::extract<double>(s["nlf"]); h.nlx = bp::extract<double>(s["nlx"]); h.nlu = bp::extract<double>(s["nlu"]); h.nlg = bp::extract<double>(s["nlg"]);
    p = pb::make(h); if (bool(bp::extract<bool>(s["nh"]))) p.run[0].nh = 1;
    env.term = p.T(); b = pb::build(p, &env);
  }
  std::shared_ptr<crocoddyl::ShootingProblem> problem() { return b.problem; }
  bp::tuple guess(int kind, double scale) { Traj xs, us; pb::guess(p, kind, 0, xs, us, scale); return bp::make_tuple(lst(xs), lst(us)); }
  void pattern(bp::list l) { env.pattern.clear(); env.memo.clear(); for (int i = 0; i < bp::len(l); ++i) env.pattern.push_back(bp::extract<int>(l[i])); }
  void fail(long k) { env.left = k; }
  void start() { env.log = bp::list(); env.logging = true; }
  bp::list log() { env.logging = false; return env.log; }
  int outcome(const VectorXd& x) { return env.outcome(x); }
  VectorXd x0() { return p.x0; }
  // the exact values of the reference model, without calls to the problem
  bp::dict eval(bp::list lx, bp::list lu) {
    pb::Eval e = pb::evaluate(p, traj(lx), traj(lu)); bp::dict d;
    d["cost"] = e.cost; d["gap1"] = e.gap1; d["con1"] = e.con1; d["gapinf"] = e.gapinf; d["coninf"] = e.coninf; return d;
  }
  // the exact solution of the QP at a trajectory and the optimality residuals of a candidate solution of it
  bp::object qp(bp::list lx, bp::list lu) {
    Traj xs = traj(lx), us = traj(lu);
    pb::Eval e = pb::evaluate(p, xs, us); pb::Lin L = pb::linearise(p, xs, us); pb::Dense D = pb::stack(p, L, e, 0, 0);
    VectorXd w, lam, y;
    if (!pb::solve_qp(D, w, lam, y)) return bp::object();
    bp::dict d; bp::list dx, du; const int n = p.n();
    dx.append(VectorXd(VectorXd::Zero(n)));
    for (int t = 1; t <= p.T(); ++t) dx.append(VectorXd(w.segment(D.ix[t], n)));
    for (int t = 0; t < p.T(); ++t) du.append(VectorXd(w.segment(D.iu[t], p.run[t].m)));
    d["dx"] = dx; d["du"] = du; d["stat"] = (D.H * w).lpNorm<Eigen::Infinity>();
    return d;
  }
  bp::dict residuals(bp::list lx, bp::list lu, bp::list ldx, bp::list ldu, bp::list llam, bp::list ly) {
    Traj xs = traj(lx), us = traj(lu), dx = traj(ldx), du = traj(ldu), la = traj(llam), ys = traj(ly);
    pb::Eval e = pb::evaluate(p, xs, us); pb::Lin L = pb::linearise(p, xs, us); pb::Dense D = pb::stack(p, L, e, 0, 0);
    const int T = p.T(), n = p.n();
    VectorXd w(D.h.size()), lam(T * n), y(p.ngs());
    for (int t = 1; t <= T; ++t) { w.segment(D.ix[t], n) = dx[t]; lam.segment((t - 1) * n, n) = -la[t]; }
    for (int t = 0; t < T; ++t) w.segment(D.iu[t], p.run[t].m) = du[t];
    for (int t = 0; t <= T; ++t) y.segment(D.row[t], p.node(t).ng()) = ys[t];
    bp::dict d;
    d["stat"] = (D.H * w + D.h + D.Eq.transpose() * lam + D.C.transpose() * y).lpNorm<Eigen::Infinity>();
    d["dyn"] = (D.Eq * w - D.eq).lpNorm<Eigen::Infinity>();
    double f = 0, c = 0; VectorXd cw = D.C * w;
    for (int i = 0; i < y.size(); ++i) {
      f = std::max({f, D.l[i] - cw[i], cw[i] - D.u[i]});
      const double su = std::isfinite(D.u[i]) ? std::fabs(D.u[i] - cw[i]) : pb::INF, sl = std::isfinite(D.l[i]) ? std::fabs(cw[i] - D.l[i]) : pb::INF;
      c = std::max({c, std::min(std::max(y[i], 0.), su), std::min(std::max(-y[i], 0.), sl)});
    }
    d["feas"] = f; d["comp"] = c;
    // the part of the multipliers' residual at the iterate itself
    d["grad"] = (D.h + D.Eq.transpose() * lam + D.C.transpose() * y).lpNorm<Eigen::Infinity>();
    return d;
  }
  bp::dict node(int t) {
    const pb::Node& k = p.node(t); bp::dict d;
    d["n"] = k.n; d["m"] = k.m; d["ng"] = k.ng(); d["A"] = k.A; d["B"] = k.B; d["Q"] = k.Q; d["S"] = k.S; d["R"] = k.R; d["Gx"] = k.Gx; d["Gu"] = k.Gu;
    d["c"] = k.c; d["q"] = k.q; d["r"] = k.r; d["h"] = k.h; d["lb"] = k.lb; d["ub"] = k.ub; d["c0"] = k.c0; d["nlf"] = k.nlf; d["nlx"] = k.nlx; d["nlu"] = k.nlu; d["nlg"] = k.nlg;
    return d;
  }
};

// ---- a C++ callback that records what the solver reports -------------------------------------------------------------
static long sequence = 0;
static long tick() { return sequence++; }
struct Recorder : CallbackAbstract {
  std::string name; bp::list rows; long raise = -1, n = 0;
  explicit Recorder(const std::string& s) : name(s) {}
  void operator()(Abs& s) override { (*this)(s, ""); }
  void operator()(Abs& s, std::string type) override {
    bp::dict d; d["#"] = tick(); d["type"] = type; for (auto& k : tab(name).get) d[k.first] = k.second(s);
    rows.append(d);
    if (n++ == raise) throw std::runtime_error("callback");
  }
};

// evaluating a C++ model from a model written in Python
typedef std::shared_ptr<crocoddyl::ActionModelAbstract> MP;
typedef std::shared_ptr<crocoddyl::ActionDataAbstract> DP;
static DP model_data(MP m) { return m->createData(); }
static void model_calc(MP m, DP d, const VectorXd& x, bp::object u) { if (u.is_none()) m->calc(d, x); else m->calc(d, x, VectorXd(bp::extract<VectorXd>(u))); }
static void model_diff(MP m, DP d, const VectorXd& x, bp::object u) { if (u.is_none()) m->calcDiff(d, x); else m->calcDiff(d, x, VectorXd(bp::extract<VectorXd>(u))); }

BOOST_PYTHON_MODULE(probe) {
  bp::import("crocoddyl"); bp::import("mim_solvers");
  fill();
  bp::def("readable", readable); bp::def("writable", writable); bp::def("get", get); bp::def("set", set); bp::def("call", call); bp::def("make", make); bp::def("tick", tick);
  bp::def("model_data", model_data); bp::def("model_calc", model_calc); bp::def("model_diff", model_diff);
  bp::class_<Problem, std::shared_ptr<Problem>, boost::noncopyable>("Problem", bp::init<bp::dict>())
      .add_property("problem", &Problem::problem).def("guess", &Problem::guess).def("pattern", &Problem::pattern).def("fail", &Problem::fail)
      .def("eval", &Problem::eval).def("qp", &Problem::qp).def("residuals", &Problem::residuals).def("start", &Problem::start).def("log", &Problem::log).def("node", &Problem::node).def("outcome", &Problem::outcome).add_property("x0", &Problem::x0);
  // models and states that Python code can evaluate like any exposed crocoddyl model
  bp::class_<pb::Model, std::shared_ptr<pb::Model>, bp::bases<crocoddyl::ActionModelAbstract>, boost::noncopyable>("Model", bp::no_init)
      .def("calc", +[](pb::Model& m, const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const VectorXd& x, const VectorXd& u) { m.calc(d, x, u); })
      .def("calc", +[](pb::Model& m, const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const VectorXd& x) { m.calc(d, x); })
      .def("calcDiff", +[](pb::Model& m, const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const VectorXd& x, const VectorXd& u) { m.calcDiff(d, x, u); })
      .def("calcDiff", +[](pb::Model& m, const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const VectorXd& x) { m.calcDiff(d, x); });
  bp::class_<pb::StateCircle, std::shared_ptr<pb::StateCircle>, bp::bases<crocoddyl::StateAbstract>, boost::noncopyable>("StateCircle", bp::no_init)
      .def("diff", +[](const pb::StateCircle& s, const VectorXd& a, const VectorXd& b) { VectorXd d(s.get_ndx()); s.diff(a, b, d); return d; })
      .def("integrate", +[](const pb::StateCircle& s, const VectorXd& a, const VectorXd& b) { VectorXd d(s.get_nx()); s.integrate(a, b, d); return d; });
  bp::class_<Recorder, std::shared_ptr<Recorder>, bp::bases<CallbackAbstract>, boost::noncopyable>("Recorder", bp::init<std::string>())
      .def_readonly("rows", &Recorder::rows).def_readwrite("raises", &Recorder::raise);
  bp::implicitly_convertible<std::shared_ptr<Recorder>, std::shared_ptr<CallbackAbstract>>();
}
