// C09: everything reported at a callback describes the iterate shown with it.
#include "mc.hpp"
#include "mon.hpp"
using namespace mon;

template <class S> static void run(mc::Ctx& c) {
  const bool th = c.thorough;
  constexpr bool csqp = std::is_same<S, SolverCSQP>::value, prox = std::is_same<S, SolverPROXQP>::value, con = csqp || prox;
  pb::Shape s;
  s.T = 1 + c.choose(3);
  s.n = 1 + c.choose(2);
  const int mpat = c.choose(3);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : mpat == 1 ? 1 + (t + 1) % 2 : t % 3);
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}, {pb::EQUAL}, {pb::FREE, pb::UPPER}};
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[con ? size_t(c.choose(t == s.T ? 4 : t == 0 ? (th ? 5 : 3) : th ? 3 : 2)) : 0]);
  if (mpat == 2) { bool z = true; for (int m : s.m) z = z && m == 0; if (z) return; }
  c.shard();
  s.circle = c.flag();
  const int nl = c.choose(3);
  if (nl) { s.nlf = 0.5; s.nlx = 0.7; s.nlg = 0.4; s.nlu = 0.2; s.hs = 0.4; }
  if (nl == 2) { s.nlf = 0.9; s.nlx = 1.5; s.nlg = 0.8; s.hs = 0.3; }
  s.dev = 0.2;
  const int ls = c.choose(csqp ? 3 : 2);  // filter, merit, merit with weights from the multipliers
  const int qb = csqp ? c.choose(3) : 0;
  const bool extra = !prox && c.flag();
  const size_t N = c.pick(std::vector<size_t>{4, 0, 1});
  if (N == 0 && !extra) return;
  s.variant = c.choose(th ? 3 : con ? 1 : 3);
  const pb::Prob p = pb::make(s);
  c.cfg = mc::cat(csqp ? "CSQP " : prox ? "PROXQP " : "SQP ", s.str(), " ls", ls, " qb", qb, " extra", extra, " N", N);
  rec::Recorder r;
  auto b = pb::build(p, &r);
  S sol(b.problem);
  rec::attach(r, sol);
  sol.set_use_filter_line_search(ls == 0);
  sol.set_mu_dynamic(ls == 2 ? -1 : 3);
  sol.set_termination_tolerance(prox ? 1e-6 : 1e-7);
  if constexpr (con) sol.set_mu_constraint(7);
  if constexpr (csqp) {
    // 0: long QP solves; 1: the loop exhausts its budget; 2: odd interval
    sol.set_max_qp_iters(qb == 1 ? 7 : 400); sol.set_rho_update_interval(qb == 2 ? 3 : 25);
    sol.set_eps_abs(1e-8); sol.set_eps_rel(0);
    if (qb == 2) sol.set_equality_qp_initial_guess(false);
  }
  if constexpr (prox) { sol.set_eps_abs(1e-9); sol.set_eps_rel(0); }
  if constexpr (!prox) sol.set_extra_iteration_for_last_kkt(extra);
  Traj xs, us;
  pb::guess(p, 1, s.variant, xs, us, 1.5);
  Traj px, pu, pdx, pdu; bool have = false; long cbs = 0;
  const auto alphas = sol.get_alphas();
  if constexpr (!prox) {
    sol.setCallbacks({callback([&](crocoddyl::SolverAbstract&, const std::string& type) {
      ++cbs; c.transition();
      c.check(type == (csqp ? "CSQP" : "SQP"), "solver-type", type);
      const pb::Eval e = pb::evaluate(p, sol.get_xs(), sol.get_us());
      if (!e.finite || std::fabs(e.cost) > 1e8) { c.stat("diverged"); return; }
      const std::string d = compare(sol, p);
      c.check(d.empty(), "metrics: " + d.substr(0, d.find(" is")), mc::cat("iteration ", sol.get_iter(), ": ", d));
      const std::string bd = compare_base(sol);
      c.check(bd.empty(), "base-class: " + bd.substr(0, bd.find(" is")), mc::cat("iteration ", sol.get_iter(), ": ", bd));
      if constexpr (csqp) {
        const double q = sol.get_qp_iters();
        c.check(q >= 1 && q <= double(sol.get_max_qp_iters()), "qp-iterations-range", mc::cat("qp_iters ", q));
      }
      if (have) {
        // which step length was taken
        double acc = -1; int n = 0;
        for (double a : alphas) {
          Traj tx = rec::step_x(p, b, px, pdx, a), tu = rec::step_u(pu, pdu, a);
          if (maxabs(tx, sol.get_xs()) < 1e-9 && maxabs(tu, sol.get_us()) < 1e-9) { acc = a; ++n; }
        }
        if (n == 1) {
          c.check(sol.get_steplength() == acc, "step-length", mc::cat("iteration ", sol.get_iter(), ": reported ", sol.get_steplength(), ", taken ", acc));
          if (acc < 1) { c.nontrivial++; c.stat("shorter steps"); }
        }
      }
      have = true; px = sol.get_xs(); pu = sol.get_us(); pdx = sol.get_dx(); pdu = sol.get_du();
      c.state(mc::mix(mc::hdbl(sol.get_KKT()), mc::hdbl(e.cost)));
    })});
  }
  r.start(s.T);
  const bool ok = sol.solve(xs, us, N, false, pb::NANV);
  c.traces++;
  c.stat(ok ? "converged" : "not converged");
  if constexpr (prox) {
    if (ok) {
      const pb::Eval e = pb::evaluate(p, sol.get_xs(), sol.get_us());
      crocoddyl::SolverAbstract& a = sol; mim_solvers::SolverDDP& d = sol;
      c.check(close(sol.get_cost(), e.cost, 1e-8, 1e-9), "final-cost", mc::cat(sol.get_cost(), " should be ", e.cost));
      c.check(close(sol.get_gap_norm(), e.gap1, 1e-8, 1e-9), "final-gap", "");
      c.check(close(sol.get_constraint_norm(), e.con1, 1e-8, 1e-9), "final-constraint", "");
      c.check(close(sol.get_merit(), mon::merit(sol, e), 1e-8, 1e-9), "final-merit", "");
      const std::string bd = compare_base(sol);
      c.check(bd.empty(), "base-class: " + bd.substr(0, bd.find(" is")), bd);
      (void)a; (void)d;
    }
  } else if (ok) {
    const std::string d = compare(sol, p), bd = compare_base(sol);
    c.check(d.empty(), "final metrics: " + d.substr(0, d.find(" is")), d);
    c.check(bd.empty(), "final base-class: " + bd.substr(0, bd.find(" is")), bd);
  }
  c.sample(c.cfg);
}

// The number of QP iterations reported is the number executed: with budgets 1, 2, 3, ... the QP iterates form a
// sequence that becomes constant exactly where the loop stopped.
static void qp_count(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s;
  s.T = 1 + c.choose(2); s.n = 1 + c.choose(2);
  for (int t = 0; t < s.T; ++t) s.m.push_back(1 + t % 2);
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}, {pb::EQUAL}};
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[size_t(c.choose(4))]);
  s.dev = 0.1;
  s.variant = c.choose(th ? 4 : 2);
  c.shard();
  const size_t interval = c.pick(std::vector<size_t>{1, 2, 3, 5, 25});
  const double eps = c.pick(std::vector<double>{1e-3, 1e-1});
  const bool eq = c.flag();
  const pb::Prob p = pb::make(s);
  c.cfg = mc::cat("qp-count ", s.str(), " interval", interval, " eps", eps, " eqguess", eq);
  Traj xs, us;
  pb::guess(p, 1, s.variant, xs, us, 1.0);
  const int B = th ? 40 : 28;
  std::vector<Traj> dx, du, y; std::vector<double> rep;
  for (int bdg = 1; bdg <= B; ++bdg) {
    auto b = pb::build(p);
    SolverCSQP sol(b.problem);
    sol.set_rho_update_interval(interval); sol.set_eps_abs(eps); sol.set_eps_rel(0); sol.set_max_qp_iters(bdg); sol.set_equality_qp_initial_guess(eq);
    double q = -1;
    sol.setCallbacks({callback([&](crocoddyl::SolverAbstract&, const std::string&) { if (q < 0) { q = sol.get_qp_iters(); dx.push_back(sol.get_dx()); du.push_back(sol.get_du()); Traj w = sol.y_; for (auto& v : sol.z_) w.push_back(v); y.push_back(w); } })});
    sol.solve(xs, us, 1);
    c.transition();
    if (!c.check(q >= 0, "no-callback")) return;
    rep.push_back(q);
  }
  c.traces++;
  int stop = B;  // number of iterations after which nothing changes any more
  for (int i = B - 2; i >= 0; --i) { if (maxabs(dx[size_t(i)], dx[size_t(i) + 1]) == 0 && maxabs(du[size_t(i)], du[size_t(i) + 1]) == 0 && maxabs(y[size_t(i)], y[size_t(i) + 1]) == 0) stop = i + 1; else break; }
  if (p.ngs() == 0) { c.stat("no constraints"); }
  if (stop < B) c.nontrivial++;
  for (int bdg = 1; bdg <= B; ++bdg) {
    const double q = rep[size_t(bdg) - 1];
    if (bdg <= stop && bdg < B) { if (bdg < stop) c.check(q == bdg, "qp-iterations", mc::cat("budget ", bdg, ": reported ", q, ", executed ", bdg)); }
    if (stop < B) {
      // the iterates may be stationary before the loop stops, never after
      if (bdg >= stop) { c.check(q >= stop && q <= bdg, "qp-iterations", mc::cat("budget ", bdg, ": reported ", q, ", iterates constant from ", stop)); }
      if (bdg > stop && p.ngs() > 0) c.check(q == rep.back() || q == bdg, "qp-iterations", mc::cat("budget ", bdg, ": reported ", q, ", with a larger budget ", rep.back()));
    } else c.check(q == bdg, "qp-iterations", mc::cat("budget ", bdg, ": reported ", q));
  }
}
static void body(mc::Ctx& c) {
  switch (c.choose(4)) { case 0: run<SolverSQP>(c); break; case 1: run<SolverCSQP>(c); break; case 2: run<SolverPROXQP>(c); break; default: qp_count(c); }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C09",
    "stateless enumeration of real solves; at every callback (and after a successful solve) everything reported is recomputed from the exposed trajectory, direction and multipliers with an independent implementation of the problem; QP iteration counts are determined from the sequence of QP iterates over all budgets",
    "3 solvers, T<=3, nx<=2, 3 control patterns (with nu=0 nodes), 2-4 row patterns per node, manifold on/off, 3 nonlinearity levels, filter/merit/negative weights, 3 QP settings, extra iteration, iteration limits {4,0,1}; QP counts: budgets 1..28, 5 intervals",
    "as quick with up to 5 row patterns per node, 3 number tables and QP budgets 1..40", {"iterates with |cost|>1e8 are not compared"}}, body);
}
