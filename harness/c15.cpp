// C15: the solvers agree with each other and with the exact optimum found by exhaustive active-set enumeration.
#include "mc.hpp"
#include "mon.hpp"
#include "mim_solvers/kkt.hpp"
using namespace mon;

static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::TWO}, {pb::EQUAL}, {pb::LOWER, pb::TWO}, {pb::FREE, pb::UPPER}};
template <class S> static std::unique_ptr<S> make(const pb::Built& b) { std::streambuf* e = std::cerr.rdbuf(nullptr); std::unique_ptr<S> s(new S(b.problem)); std::cerr.rdbuf(e); return s; }
struct Opt_ { Traj xs, us; double cost; };

static bool optimum(const pb::Prob& p, Opt_& o, double& room) {
  Traj xs, us; pb::guess(p, 0, 0, xs, us, 1); xs[0] = p.x0;
  const pb::Eval e = pb::evaluate(p, xs, us);
  const pb::Dense D = pb::stack(p, pb::linearise(p, xs, us), e, 0, 0);
  VectorXd w, lam, y;
  if (!pb::solve_qp(D, w, lam, y)) return false;
  for (int t = 1; t <= p.T(); ++t) xs[size_t(t)] += w.segment(D.ix[size_t(t)], p.n());
  for (int t = 0; t < p.T(); ++t) us[size_t(t)] += w.segment(D.iu[size_t(t)], p.run[size_t(t)].m);
  // conditioning of the problem: smallest eigenvalue of the Hessian on the dynamics
  room = Eigen::SelfAdjointEigenSolver<MatrixXd>(D.H).eigenvalues()[0];
  o.xs = xs; o.us = us; o.cost = pb::evaluate(p, xs, us).cost;
  return true;
}
template <class S> static void compare(mc::Ctx& c, const char* nm, S& s, const pb::Prob& p, const Opt_& o, double tol) {
  const double ex = maxabs(s.get_xs(), o.xs), eu = maxabs(s.get_us(), o.us);
  c.check(ex <= tol && eu <= tol, mc::cat(nm, "-not-the-minimiser"), mc::cat("states off by ", ex, ", controls by ", eu));
  c.check(std::fabs(pb::evaluate(p, s.get_xs(), s.get_us()).cost - o.cost) <= 10 * tol * (1 + std::fabs(o.cost)), mc::cat(nm, "-not-the-optimal-cost"), "");
}
static pb::Shape shape(mc::Ctx& c, int Tmax) {
  pb::Shape s;
  s.T = 1 + c.choose(Tmax); s.n = 1 + c.choose(2);
  const int mpat = c.choose(4);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : mpat == 1 ? 2 : mpat == 2 ? 2 - t % 2 : t % 2);
  return s;
}
static int nonzero(const pb::Shape& s) { int k = 0; for (int m : s.m) k += m; return k; }

static void constrained(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s = shape(c, th ? 3 : 2);
  if (!nonzero(s)) return;
  if (th && s.T == 3) { const int a = c.choose(6), b = c.choose(6); for (int t = 0; t <= 3; ++t) s.rows.push_back(CLS[size_t(t % 2 ? a : b)]); }
  else for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[size_t(c.choose(6))]);
  s.variant = c.choose(th ? 4 : 2);
  s.dev = c.pick(std::vector<double>{0.3, 0.02});
  s.curv = c.pick(std::vector<double>{1, 5});
  if (!th && s.curv == 5 && s.dev < 0.1) return;
  const int gk = c.choose(2);
  const int which = c.choose(3);  // CSQP, CSQP without the warm start and another penalty, PROXQP
  c.shard();
  const pb::Prob p = pb::make(s);
  c.cfg = mc::cat("constrained ", which == 0 ? "CSQP " : which == 1 ? "CSQP' " : "PROXQP ", s.str(), " dev ", s.dev, " guess", gk);
  Opt_ o; double room;
  if (!optimum(p, o, room)) { c.stat("no regular optimum"); return; }
  Traj xs, us; pb::guess(p, gk, 0, xs, us, 1.2);
  pb::Built b = pb::build(p);
  const double tol = 1e-7;
  int r = -1; double kkt = 0;
  auto go = [&](auto& q) { q.set_termination_tolerance(tol); try { r = q.solve(xs, us, 8, false, pb::NANV); } catch (std::exception&) { r = -1; } kkt = q.get_KKT(); };
  if (which < 2) {
    auto q = make<SolverCSQP>(b);
    q->set_eps_abs(1e-9); q->set_eps_rel(0); q->set_max_qp_iters(which == 0 ? 20000 : 2000);
    if (which == 0) q->set_adaptive_rho_tolerance(1000000000);
    if (which == 1) { q->set_equality_qp_initial_guess(false); q->set_rho_update_interval(10); q->reset_y_ = q->reset_rho_ = true; }
    go(*q);
    // with a penalty that is not adapted ADMM has to converge; the adaptation can run into a cycle
    if (which == 0) c.check(r == 1 || (r == 0 && kkt < 1e-2), "CSQP-does-not-converge", mc::cat("returned ", r, " KKT ", kkt));
    if (r == 1) c.stat(which ? "CSQP' converged" : "CSQP converged");
    if (r == 1) compare(c, "CSQP", *q, p, o, 1e-5);
  } else {
    auto q = make<SolverPROXQP>(b);
    q->set_eps_abs(1e-10); q->set_eps_rel(0); q->set_max_qp_iters(500);
    go(*q);
    if (r == 1) compare(c, "PROXQP", *q, p, o, 2e-4); else { c.stat("PROXQP did not converge"); }
  }
  if (!p.ngs() && which < 2) { auto q = make<SolverSQP>(b); go(*q); if (c.check(r == 1, "SQP-does-not-converge", "")) compare(c, "SQP", *q, p, o, 1e-5); }
  c.state(mc::mix(mc::hdbl(o.cost), uint64_t(which))); c.traces++; c.transition();
  const pb::Eval e = pb::evaluate(p, o.xs, o.us); bool act = false;
  for (int t = 0; t <= p.T(); ++t) for (int i = 0; i < p.node(t).ng(); ++i) act = act || std::fabs(e.g[size_t(t)][i] - p.node(t).ub[i]) < 1e-7 || std::fabs(e.g[size_t(t)][i] - p.node(t).lb[i]) < 1e-7;
  if (act) c.nontrivial++;
  c.sample(c.cfg);
}
template <class S> static void first_step(mc::Ctx& c, const char* nm, const pb::Prob& p, const Traj& xs, const Traj& us, bool feas, const Opt_& o, bool must) {
  c.cfg += mc::cat(" ", nm);
  pb::Built b = pb::build(p);
  auto q = make<S>(b);
  if constexpr (std::is_same<S, SolverPROXQP>::value) { q->set_eps_abs(1e-10); q->set_eps_rel(0); q->set_max_qp_iters(500); q->set_termination_tolerance(1e-7); }
  int r; try { r = q->solve(xs, us, 1, feas, pb::NANV); } catch (std::exception& e) { r = -1; c.fail(mc::cat(nm, "-throws"), e.what()); return; }
  Traj x0 = xs; x0[0] = p.x0;
  const bool moved = maxabs(q->get_xs(), x0) > 0 || maxabs(q->get_us(), us) > 0;
  c.stat(mc::cat(nm, moved ? q->get_steplength() == 1 ? " full step" : " shorter step" : " no step"));
  if (must && maxabs(x0, o.xs) + maxabs(us, o.us) > 1e-3) c.check(moved && q->get_steplength() == 1, mc::cat(nm, "-full-step-rejected"), mc::cat(" step ", q->get_steplength()));
  if (moved && q->get_steplength() == 1) compare(c, nm, *q, p, o, 1e-5);
  // and stays there
  auto q2 = make<S>(b);
  if constexpr (std::is_same<S, SolverPROXQP>::value) { q2->set_eps_abs(1e-10); q2->set_eps_rel(0); q2->set_max_qp_iters(500); q2->set_termination_tolerance(1e-7); }
  try { r = q2->solve(o.xs, o.us, 2, true, pb::NANV); } catch (std::exception& e) { r = -1; }
  c.check(r == 1, mc::cat(nm, "-optimum-not-recognised"), mc::cat("returned ", r));
  compare(c, nm, *q2, p, o, 1e-5);
}
static void unconstrained(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s = shape(c, th ? 5 : 4);
  if (!nonzero(s)) return;
  s.variant = c.choose(th ? 12 : 6);
  s.curv = c.pick(std::vector<double>{1, 0.2, 5});
  s.rows.assign(size_t(s.T) + 1, {});
  const int gk = c.choose(3); const double sc = c.pick(std::vector<double>{1.2, 30});
  const int k = c.choose(8);
  c.shard();
  const pb::Prob p = pb::make(s);
  c.cfg = mc::cat("unconstrained ", s.str(), " guess", gk, "*", sc);
  Opt_ o; double room;
  if (!optimum(p, o, room)) { c.stat("no regular optimum"); return; }
  Traj xs, us; pb::guess(p, gk, 0, xs, us, sc);
  const bool feas = gk == 2;
  switch (k) {
    case 0: first_step<SolverSQP>(c, "SQP", p, xs, us, false, o, true); break;
    case 1: first_step<SolverCSQP>(c, "CSQP", p, xs, us, false, o, true); break;
    case 2: first_step<SolverDDP>(c, "DDP", p, xs, us, feas, o, feas); break;
    case 3: first_step<SolverFDDP>(c, "FDDP", p, xs, us, feas, o, feas); break;
    case 4: first_step<SolverDDP>(c, "DDP", p, xs, us, false, o, false); break;
    case 5: first_step<SolverFDDP>(c, "FDDP", p, xs, us, false, o, false); break;
    case 6: first_step<SolverPROXQP>(c, "PROXQP", p, xs, us, false, o, true); break;
    default: {
      pb::Built b = pb::build(p); mim_solvers::SolverKKT q(b.problem);
      int r; try { r = q.solve(xs, us, 2, feas, pb::NANV); } catch (std::exception&) { r = -1; }
      c.stat(mc::cat("KKT returned ", r, " step ", q.get_steplength()));
      if (r == 1) { c.cfg += " KKT"; compare(c, "KKT", q, p, o, 1e-5); }
      break; }
  }
  c.state(mc::mix(mc::hdbl(o.cost), uint64_t(k))); c.traces++; c.transition(); c.nontrivial++;
  c.sample(c.cfg);
}
static void same_iterates(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s = shape(c, 3);
  if (!nonzero(s)) return;
  s.variant = c.choose(th ? 6 : 2);
  s.rows.assign(size_t(s.T) + 1, {});
  const int nl = c.choose(3);
  s.nlf = nl == 0 ? 0.5 : nl == 1 ? 0.9 : 0.4; s.nlx = nl == 0 ? 0.6 : 2; s.nlu = 0.3; s.hs = nl == 2 ? 0.3 : 1;
  s.circle = c.flag();
  const int ls = c.choose(2), gk = c.choose(3); const size_t fs = c.flag() ? 3 : 1; const bool extra = c.flag();
  const double reg = c.pick(std::vector<double>{pb::NANV, 0.1});
  const double mu = c.pick(std::vector<double>{1, 20});
  if (ls == 0 && mu == 1) return;
  if (ls && fs == 3) return;
  const size_t N = 6;
  c.shard();
  const pb::Prob p = pb::make(s);
  const int eqg = c.flag();
  c.cfg = mc::cat("same iterates ", s.str(), " ls", ls, " guess", gk, " fs", fs, " extra", extra, " reg", reg, " mu", mu, " eqg", eqg);
  Traj xs, us; pb::guess(p, gk, 0, xs, us, 1.5);
  struct Row { Traj xs, us, dx; double kkt, cost, gap, merit, preg; };
  auto go = [&](auto& q, std::vector<Row>& out, auto opts) {
    q.set_use_filter_line_search(ls == 0); q.set_filter_size(fs); q.set_extra_iteration_for_last_kkt(extra); q.set_mu_dynamic(mu); q.set_termination_tolerance(1e-5);
    opts();
    q.setCallbacks({callback([&](crocoddyl::SolverAbstract&, const std::string&) { out.push_back(Row{q.get_xs(), q.get_us(), q.get_dx(), q.get_KKT(), q.get_cost(), q.get_gap_norm(), q.get_merit(), q.get_preg()}); })});
    int r; try { r = q.solve(xs, us, N, false, reg); } catch (std::exception&) { r = -1; }
    return r;
  };
  std::vector<Row> A, B;
  pb::Built ba = pb::build(p), bb = pb::build(p);
  auto a = make<SolverSQP>(ba); auto b = make<SolverCSQP>(bb);
  // the solvers share their regularisation policy if the two step thresholds of SolverSQP coincide
  const int ra = go(*a, A, [&] { a->set_th_stepinc(a->get_th_stepdec()); });
  const int rb = go(*b, B, [&] { b->set_equality_qp_initial_guess(eqg); b->set_eps_abs(1e-12); b->set_eps_rel(0); b->set_max_qp_iters(3000); });
  const double tol = 1e-6;
  bool stuck = false;  // SolverCSQP stops where SolverSQP tries again with more regularisation
  for (size_t i = 1; i < A.size(); ++i) stuck = stuck || (maxabs(A[i].xs, A[i - 1].xs) == 0 && maxabs(A[i].us, A[i - 1].us) == 0);
  if (stuck) c.stat("no step accepted");
  for (size_t i = 0; i < std::min(A.size(), B.size()); ++i) {
    if (i && maxabs(A[i].xs, A[i - 1].xs) == 0 && maxabs(A[i].us, A[i - 1].us) == 0) break;
    double sz = 1; for (auto& v : A[i].dx) if (v.size()) sz = std::max(sz, v.lpNorm<Eigen::Infinity>());
    // with two gaps at the level of rounding, or at convergence, the line search decides by rounding
    if (i && (A[i - 1].gap < 1e-9 || A[i - 1].kkt < 1e-6) && !(maxabs(A[i].xs, B[i].xs) <= tol * sz)) { c.stat("decided by rounding"); stuck = true; break; }
    bool same = c.check(maxabs(A[i].xs, B[i].xs) <= tol * sz && maxabs(A[i].us, B[i].us) <= tol * sz, "different-iterate", mc::cat("iteration ", i, " off by ", maxabs(A[i].xs, B[i].xs)));
    same = same && c.check(maxabs(A[i].dx, B[i].dx) <= tol * sz, "different-direction", mc::cat("iteration ", i, " off by ", maxabs(A[i].dx, B[i].dx)));
    if (!same) break;
    c.check(close(A[i].cost, B[i].cost, tol * sz, tol), "different-cost", "");
    c.check(close(A[i].gap, B[i].gap, tol * sz, tol), "different-gap", "");
    c.check(A[i].preg == B[i].preg || (i && A[i - 1].kkt < 1e-6), "different-regularisation", mc::cat(A[i].preg, " / ", B[i].preg));
    c.transition();
  }
  if (!stuck) c.check(ra == rb, "different-verdict", mc::cat(ra, " / ", rb));
  if (!stuck) c.check(A.size() == B.size(), "different-number-of-iterations", mc::cat(A.size(), " / ", B.size()));
  c.state(mc::mix(mc::hdbl(A.empty() ? 0 : A.back().cost), uint64_t(A.size()))); c.traces++;
  if (A.size() > 1) c.nontrivial++;
  c.stat(mc::cat("SQP ", ra, " after ", A.size()));
  c.sample(c.cfg);
}
static void body(mc::Ctx& c) {
  switch (c.choose(3)) { case 0: constrained(c); break; case 1: unconstrained(c); break; default: same_iterates(c); }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C15",
    "exhaustive enumeration of convex problems; the result of every solver is compared with the optimum found by enumerating all active sets, the first full step with the exact minimiser, and the iterates of SolverSQP with those of SolverCSQP",
    "constrained: T<=2, nx<=2, 4 control patterns, every assignment of 6 row classes to nodes, 2 data variants, 2 guesses, 3 solver set-ups; unconstrained: T<=4, 6 variants, 3 curvatures, 6 guesses, 8 solver set-ups; nonlinear: T<=3, 3 nonlinearities, manifold, filter/merit",
    "constrained T<=3, 4 variants; unconstrained T<=5, 12 variants; nonlinear 6 variants", {"strictly convex costs, feasible constraints with a regular optimum"}}, body);
}
