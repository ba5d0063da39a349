// C05: SolverPROXQP assembles and solves the stage-wise QP of the current iterate, for every layout.
#include "mc.hpp"
#include "admm.hpp"
using namespace pb; using namespace sv; using namespace admm;
static const std::vector<std::vector<int>> CLS = {{}, {UPPER}, {EQUAL}, {TWO, LOWER}, {FREE}, {LOWER}, {TWO}};

static void body(mc::Ctx& c) {
  Shape s;
  const bool th = c.thorough;
  s.T = 1 + c.choose(th ? 4 : 3);
  s.n = 1 + c.choose(s.T >= 3 ? (th ? 2 : 1) : 2);
  for (int t = 0; t < s.T; ++t) s.m.push_back((1 + c.choose(3)) % 3);
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[size_t(c.choose(s.T == 1 ? 7 : s.T == 2 ? (th ? 7 : 5) : s.T == 3 ? (th ? 4 : 3) : 3))]);
  c.shard();
  s.variant = c.choose(th ? 2 : 1);
  s.variant += s.T;
  const int nl = c.choose(3);
  if (nl) { s.nlf = 0.3; s.nlx = 0.3; s.nlg = 0.2; }
  s.circle = nl == 2;
  s.dev = c.pick(std::vector<double>{0.1, 1.0});
  const int iters = c.choose(th ? 4 : 3);
  Prob p = make(s);
  c.cfg = s.str() + mc::cat(" dev", s.dev, " after ", iters, " iterations");
  Built b = build(p);
  Traj xs, us;
  guess(p, 1, s.variant, xs, us);
  SolverPROXQP sol(b.problem);
  sol.set_eps_abs(1e-9); sol.set_eps_rel(0);
  if (iters) { sol.set_termination_tolerance(-1); sol.solve(xs, us, size_t(iters), false, NAN); }
  else sol.setCandidate(xs, us, false);
  const Traj X = sol.get_xs(), U = sol.get_us();
  const Eval e = evaluate(p, X, U);
  if (!e.finite || e.gap1 > 1e6) { c.stat("diverged"); return; }
  const Lin L = linearise(p, X, U);
  const Dense D = stack(p, L, e, 0, 0);
  sol.computeDirection(true);
  c.transition();
  c.state(mc::mix(mc::hdbl(e.cost), mc::mix(mc::hdbl(e.con1), iters)));
  const Eigen::Index N = D.H.rows(), R = p.ngs(), E = D.Eq.rows();
  auto eqm = [&](const MatrixXd& a, const MatrixXd& r, const char* k) {
    if (!c.check(a.rows() == r.rows() && a.cols() == r.cols(), std::string(k) + "-size", mc::cat(a.rows(), "x", a.cols()))) return;
    double d = a.size() ? (a - r).cwiseAbs().maxCoeff() : 0;
    c.check(d <= 1e-9 * (1 + (r.size() ? r.cwiseAbs().maxCoeff() : 0)), std::string("matrix-") + k, mc::cat("largest difference ", d));
  };
  auto eqv = [&](const VectorXd& a, const VectorXd& r, const char* k) {
    if (!c.check(a.size() == r.size(), std::string(k) + "-size")) return;
    for (Eigen::Index i = 0; i < a.size(); ++i) if (!c.check(close(a[i], r[i], 1e-9, 1e-9), std::string("vector-") + k, mc::cat("entry ", i, ": ", a[i], " expected ", r[i]))) break;
  };
  eqm(sol.get_P(), D.H, "P"); eqm(sol.get_A(), D.Eq, "A"); eqm(sol.get_C(), D.C, "C");
  eqv(sol.get_q(), D.h, "q"); eqv(sol.get_b(), D.eq, "b"); eqv(sol.get_l(), D.l, "l"); eqv(sol.get_u(), D.u, "u");
  (void)N; (void)E;
  // the direction is a solution of that QP (if it has one)
  VectorXd w, la, y;
  c.traces++;
  if (R) c.nontrivial++;
  if (!solve_qp(D, w, la, y) || inf(w) > 1e3) { c.stat("QP without (well-defined) solution"); return; }
  if (sol.get_norm_primal() > 1e-7 || sol.get_norm_dual() > 1e-7) { c.stat("proxqp budget exhausted"); return; }
  // proxsuite's own verdict on the exposed data: its infeasibility heuristic sometimes rejects a feasible QP
  {
    Eigen::SparseMatrix<double, 0, long long> P = sol.get_P().sparseView(), A = sol.get_A().sparseView(), C = sol.get_C().sparseView();
    proxsuite::proxqp::sparse::QP<double, long long> q(P.rows(), A.rows(), C.rows());
    q.init(P, sol.get_q(), A, sol.get_b(), C, sol.get_l(), sol.get_u());
    q.settings.eps_abs = sol.get_eps_abs(); q.settings.eps_rel = sol.get_eps_rel();
    q.settings.max_iter = sol.get_max_qp_iters(); q.settings.max_iter_in = sol.get_max_qp_iters();
    q.solve();
    if (q.results.info.status == proxsuite::proxqp::QPSolverOutput::PROXQP_PRIMAL_INFEASIBLE || q.results.info.status == proxsuite::proxqp::QPSolverOutput::PROXQP_DUAL_INFEASIBLE) {
      c.fail("backend-declares-feasible-qp-infeasible", mc::cat("status ", int(q.results.info.status), ", reported residuals ", sol.get_norm_primal(), " ", sol.get_norm_dual(), ", distance to the QP solution ", inf(cat_w(sol.get_dx(), sol.get_du()) - w)));
      return;
    }
  }
  c.stat("directions compared");
  const VectorXd g = cat_w(sol.get_dx(), sol.get_du());
  if (!c.check(g.size() == w.size(), "direction-size")) return;
  c.check(sol.get_dx()[0].lpNorm<1>() == 0, "dx0");
  c.check(inf(g - w) <= 1e-4 * (1 + inf(w)), "direction", mc::cat("distance to the QP solution ", inf(g - w)));
  c.check(inf(D.Eq * g - D.eq) <= 1e-6 * (1 + inf(w)), "linearised-dynamics");
  VectorXd cw = D.C * g;
  for (Eigen::Index i = 0; i < R; ++i) c.check(cw[i] <= D.u[i] + 1e-6 && cw[i] >= D.l[i] - 1e-6, "linearised-constraint", mc::cat("row ", i));
  // multipliers: stationarity of the Lagrangian with the exposed signs  (H w + h + C'y - Eq'lambda = 0)
  VectorXd lam(E);
  for (int t = 0; t < p.T(); ++t) lam.segment(t * p.n(), p.n()) = sol.get_lag_mul()[size_t(t) + 1];
  VectorXd yy = cat_rows(sol.get_y());
  if (!c.check(yy.size() == R, "y-size")) return;
  VectorXd r = D.H * g + D.h + D.C.transpose() * yy - D.Eq.transpose() * lam;
  c.check(inf(r) <= 1e-6 * (1 + inf(yy) + inf(lam)), "lagrangian", mc::cat("residual ", inf(r)));
  for (Eigen::Index i = 0; i < R; ++i) {
    c.check(yy[i] <= 1e-6 || cw[i] >= D.u[i] - 1e-5, "multiplier-sign-upper");
    c.check(yy[i] >= -1e-6 || cw[i] <= D.l[i] + 1e-5, "multiplier-sign-lower");
  }
  c.check(close(sol.get_xgrad_norm(), l1(sol.get_dx()) / (p.T() + 1), 1e-9, 1e-12) && close(sol.get_ugrad_norm(), l1(sol.get_du()) / p.T(), 1e-9, 1e-12), "direction-norms");
  c.sample(c.cfg);
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C05", "stateless enumeration of layouts on the real SolverPROXQP: exposed QP data compared entry by entry with an independent stacking, direction and multipliers with exhaustive active-set enumeration, at the guess and after 1..k iterations",
    "T<=3, nx<=2, nu in {0,1,2} per node (all patterns), rows per node from 7 (T=1), 5 (T=2), 3 (T=3) classes in all combinations, linear/nonlinear/manifold (nx = 2 ndx), 2 box widths, 0..2 iterations",
    "T<=4, nx<=2, nu in {0,1,2} per node (all patterns), rows from 7/7/4/3 classes, 2 number tables, 0..3 iterations", {"numbers are taken from fixed generic tables", "QPs without a unique well-conditioned solution are only checked for assembly"}}, body);
}
