// C03 (inner QP of CSQP) and C04 (penalty policy), selected with -DPROP.
// The real QP loop is rerun for 0,1,..,N iterations; the states it passes through are compared, one transition at a
// time, with the reference iteration started from the implementation's own previous state.
#include "mc.hpp"
#include "admm.hpp"
using namespace pb; using namespace sv; using namespace admm;
#ifndef PROP
#define PROP 3
#endif
static const bool P3 = PROP == 3, P4 = PROP == 4;

static const std::vector<std::vector<int>> CLS = {{}, {TWO}, {UPPER}, {LOWER}, {EQUAL}, {FREE}, {EQUAL, UPPER}, {TWO, FREE}, {NEAREQ, LOWER}};

static bool ok(double a, double b, double sc) { return std::fabs(a - b) <= 1e-6 * sc || (std::isnan(a) && std::isnan(b)) || a == b; }

static void body(mc::Ctx& c) {
  Shape s;
  const bool th = c.thorough;
  s.T = 1 + c.choose(P4 && !th ? 2 : 3);
  s.n = s.T == 1 ? 1 + c.choose(2) : s.T == 2 ? 2 - c.choose(th ? 2 : 1) : 1;
  if (s.T == 1) s.m.push_back(1 + c.choose(2));
  else if (s.T == 2) s.m = c.pick(std::vector<std::vector<int>>{{1, 2}, {2, 0}, {1, 1}});
  else s.m = c.pick(std::vector<std::vector<int>>{{1, 2, 1}, {2, 0, 1}});
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[size_t(c.choose(s.T == 1 ? 9 : s.T == 2 ? (th ? 9 : 7) : (th ? 7 : 4)))]);
  c.shard();
  std::vector<Set> sets;
  { Set o; o.interval = 5; sets.push_back(o); }
  { Set o; o.interval = 3; o.adapt = 2; o.eps_abs = 1e-7; o.eps_rel = 0; o.warm = true; sets.push_back(o); }
  { Set o; o.interval = 2; o.adapt = 2; o.alpha = 1.0; o.sigma = 1e-2; o.heuristic = true; sets.push_back(o); }
  { Set o; o.interval = 1; o.adapt = 3; o.alpha = 1.3; o.eqguess = false; o.reset_y = true; o.warm = true; o.eps_abs = 1e-6; o.eps_rel = 1e-3; sets.push_back(o); }
  { Set o; o.interval = 4; o.adapt = 2; o.preg = 0.3; o.reset_rho = true; o.sigma = 0.3; o.eps_abs = 1e-10; o.eps_rel = 1e-2; sets.push_back(o); }
  if (th || P4) { Set o; o.interval = 6; o.adapt = 2; o.warm = true; o.heuristic = true; o.reset_rho = true; o.eps_abs = 1e-3; sets.push_back(o); }
  if (th) { Set o; o.interval = 25; sets.push_back(o); }
  const Set o = c.pick(sets);
  s.variant = c.choose(th ? 3 : 2);
  if (c.flag()) { s.nlf = 0.3; s.nlx = 0.3; s.nlg = 0.2; }
  s.dev = c.pick(std::vector<double>{0.05, 1.0});
  const int gk = 1 + (th ? c.choose(2) : 0);
  Prob p = make(s);
  c.cfg = s.str() + " dev" + mc::num(s.dev) + " guess" + mc::cat(gk) + " | " + o.str();
  Built b = build(p);
  Traj xs, us;
  guess(p, gk, s.variant, xs, us);
  SolverCSQP sol(b.problem);
  apply(sol, o);
  const Eval e = evaluate(p, xs, us);
  const Lin L = linearise(p, xs, us);
  const Dense D = stack(p, L, e, o.preg, o.preg);
  const Eigen::Index R = p.ngs();
  VectorXd y0 = VectorXd::Zero(R);
  if (o.warm) for (Eigen::Index i = 0; i < R; ++i) y0[i] = val(int(i), 5, 5, s.variant);
  auto run = [&](std::size_t k) {
    sol.setCandidate(xs, us, false);
    sol.set_preg(o.preg); sol.set_dreg(o.preg);
    sol.calc(true);
    sol.reset_rho_vec();
    Eigen::Index r = 0;
    for (int t = 0; t <= p.T(); ++t) { sol.y_[size_t(t)] = y0.segment(r, p.node(t).ng()); r += p.node(t).ng(); }
    for (auto& v : sol.dx_) v.setZero();
    for (auto& v : sol.du_) v.setZero();
    sol.set_max_qp_iters(int(k));
    sol.computeDirection(true);
  };
  auto snap = [&]() { St q; q.w = cat_w(sol.get_dx(), sol.get_du()); q.z = cat_rows(sol.get_z()); q.y = cat_rows(sol.get_y()); q.rho = sol.get_rho_sparse(); return q; };
  const std::size_t per = o.interval;
  const std::size_t N = per >= 25 ? 50 : per * (th ? 5 : 3) + 1;
  // --- initial state of the QP loop
  run(0);
  St a = snap();
  if (P3) {
    VectorXd w0 = VectorXd::Zero(D.H.rows()), lam;
    bool have = true;
    if (o.eqguess) have = solve_eq(D.H, D.h, D.Eq, D.eq, w0, lam);
    if (have) c.check(inf(a.w - w0) <= 1e-6 * (1 + inf(w0)), "initial-direction", mc::cat("difference ", inf(a.w - w0)));
    c.check(inf(a.z) == 0, "initial-z");
    c.check(inf(a.y - (o.reset_y ? VectorXd(VectorXd::Zero(R)) : y0)) == 0, "initial-y");
  }
  if (P4) c.check(a.rho == RHO_BASE, "initial-rho", mc::cat("rho ", a.rho));
  bool stopped = false, diverge = false;
  for (std::size_t k = 1; k <= N && !stopped; ++k) {
    run(k);
    c.transition();
    St n = snap();
    const bool mult = k % per == 0;
    const VectorXd rho = rho_rows(p, a.rho);
    St ref;
    if (!n.w.allFinite() || !n.y.allFinite()) { c.check(!P3, "non-finite-qp", mc::cat("iteration ", k)); return; }
    if (!step(D, rho, o, a, ref)) { c.stat("reference ill-conditioned"); diverge = true; }
    else {
      double sw = 1 + inf(ref.w), sz = 1 + inf(ref.z) + inf(a.z), sy = 1 + inf(ref.y) + inf(a.y);
      const double rmax = R ? rho.maxCoeff() : 1;
      if (P3) {
        c.check(inf(n.w - ref.w) <= 1e-6 * sw, "iteration-direction", mc::cat("QP iteration ", k, " difference ", inf(n.w - ref.w)));
        c.check(inf(n.z - ref.z) <= 1e-6 * sz * (1 + inf(ref.w)), "iteration-z", mc::cat("QP iteration ", k));
        c.check(inf(n.y - ref.y) <= 1e-8 * rmax * sw + 1e-6 * sy, "iteration-y", mc::cat("QP iteration ", k, " difference ", inf(n.y - ref.y)));
        c.check(inf(cat_w(sol.get_dx_tilde(), sol.get_du_tilde()) - n.w) <= 1e-12 * sw, "dx-vs-dxtilde");
        c.check(sol.get_dx_tilde()[0].lpNorm<1>() <= 1e-12, "dx0");
        // linearised dynamics hold exactly at every iteration
        c.check(inf(D.Eq * n.w - D.eq) <= 1e-8 * sw, "dynamics-residual", mc::cat("QP iteration ", k));
        VectorXd lo = D.l - n.z, hi = n.z - D.u;
        double out = 0; for (Eigen::Index i = 0; i < R; ++i) out = std::max({out, lo[i], hi[i]});
        c.check(out <= 1e-9 * sz, "z-outside-bounds");
        for (Eigen::Index i = 0; i < R; ++i) {
          bool inside = n.z[i] > D.l[i] + 1e-7 * sz && n.z[i] < D.u[i] - 1e-7 * sz;
          double ty = 1e-7 * (sy + rmax * sz);
          c.check(!inside || std::fabs(n.y[i]) <= ty, "inactive-multiplier", mc::cat("row ", i, " y ", n.y[i]));
          c.check(n.y[i] <= ty || n.z[i] >= D.u[i] - 1e-7 * sz, "multiplier-sign-upper");
          c.check(n.y[i] >= -ty || n.z[i] <= D.l[i] + 1e-7 * sz, "multiplier-sign-lower");
        }
      }
    }
    // --- residual norms, penalty update and stopping decision at multiples of the interval
    double rref = a.rho;
    bool ambiguous = false;
    if (mult) {
      Norms nr = norms(p, L, D, rho, o, a, n);
      const double tp = std::fabs(o.eps_rel) <= 2.3e-16 ? o.eps_abs : o.eps_abs + o.eps_rel * nr.primal_rel;
      const double td = std::fabs(o.eps_rel) <= 2.3e-16 ? o.eps_abs : o.eps_abs + o.eps_rel * nr.dual_rel;
      if (R && P3) {
        const double rmax = rho.maxCoeff(), gs = 1 + inf(n.w);
        c.check(std::fabs(sol.get_norm_primal() - nr.primal) <= 1e-9 * gs, "norm-primal", mc::cat("QP iteration ", k, ": ", sol.get_norm_primal(), " vs ", nr.primal));
        c.check(std::fabs(sol.get_norm_dual() - nr.dual) <= 1e-9 * (gs * rmax + 1), "norm-dual", mc::cat("QP iteration ", k, ": ", sol.get_norm_dual(), " vs ", nr.dual));
      }
      const double scale = std::sqrt((nr.primal * nr.dual_rel) / (nr.dual * nr.primal_rel));
      double est = std::min(std::max(scale * a.rho, RHO_MIN), RHO_MAX);
      // residuals at rounding level make the estimate meaningless: accept either decision
      if (R && (nr.primal < 1e-11 * (1 + nr.primal_rel) || nr.dual < 1e-11 * (1 + nr.dual_rel) * (1 + rho.maxCoeff()))) ambiguous = true;
      if (std::isnan(scale)) est = NANV;
      if (R == 0) ambiguous = false;
      if (est > a.rho * o.adapt || est < a.rho / o.adapt) rref = est;
      if (std::fabs(est / (a.rho * o.adapt) - 1) < 1e-6 || std::fabs(est * o.adapt / a.rho - 1) < 1e-6) ambiguous = true;
      const bool conv = nr.primal <= tp && nr.dual <= td;
      const bool convamb = R && (std::fabs(nr.primal - tp) <= 1e-7 * tp + 1e-12 || std::fabs(nr.dual - td) <= 1e-7 * td + 1e-11 * rho.maxCoeff());
      // decision: does the loop end here when it has budget left?
      if (k < N) {
        St keep = n; double keeprho = sol.get_rho_sparse();
        Traj rv = sol.get_rho_vec();
        run(N + 100);
        const bool ended = sol.get_qp_iters() == double(k);
        if (P3) c.check(ended == conv || convamb, conv ? "did-not-stop-at-solution" : "stopped-before-solution", mc::cat("QP iteration ", k, " primal ", nr.primal, "/", tp, " dual ", nr.dual, "/", td));
        if (ended) {
          stopped = true;
          c.stat("early stops");
          St f = snap();
          if (P3) {
            c.check(inf(f.w - keep.w) == 0 && inf(f.y - keep.y) == 0 && inf(f.z - keep.z) == 0, "result-differs-from-iteration");
            // an honest certificate: the residual of the QP's own optimality system
            const double rmax = R ? rho.maxCoeff() : 1;
            VectorXd cw = D.C * f.w;
            VectorXd r = -o.sigma * (f.w - a.w);
            double slackr = 0;
            if (R) { r += D.C.transpose() * rho.cwiseProduct((o.alpha - 1) * (cw - a.z) + a.z - f.z); slackr = inf(r); }
            // grad + H w + C'y - Eq'lambda = r : project on the dynamics null space
            VectorXd gr = D.h + D.H * f.w + D.C.transpose() * f.y - r;
            VectorXd lam = D.Eq.transpose().colPivHouseholderQr().solve(gr);
            double res = inf(gr - D.Eq.transpose() * lam);
            c.check(res <= 1e-7 * (1 + inf(D.h) + inf(f.y) + inf(f.w)) * (1 + rmax * 1e-2), "optimality-system", mc::cat("residual ", res, " slack ", slackr));
            if (o.eps_abs <= 1e-6 && o.eps_rel == 0 && R) {
              VectorXd w, la, y;
              if (solve_qp(D, w, la, y) && inf(w) < 1e3) { c.stat("exact QP solutions compared"); c.check(inf(w - f.w) <= 1e-2 * (1 + inf(w)), "not-the-qp-solution", mc::cat("distance ", inf(w - f.w))); }
            }
          }
          if (P4) c.check(sol.get_rho_sparse() == keeprho, "rho-differs");
        }
        n = keep; n.rho = keeprho;
        (void)rv;
        if (stopped) { run(k); }
      }
    } 
    if (P4) {
      c.check(n.rho >= RHO_MIN * (1 - 1e-12) && n.rho <= RHO_MAX * (1 + 1e-12), "rho-out-of-range", mc::cat("rho ", n.rho));
      if (!mult) c.check(n.rho == a.rho, "rho-changed-off-schedule", mc::cat("QP iteration ", k));
      else if (!ambiguous && !diverge) {
        bool changed = n.rho != a.rho;
        c.check(ok(n.rho, rref, std::max(n.rho, rref) * 10), "rho-update", mc::cat("QP iteration ", k, ": ", a.rho, " -> ", n.rho, " expected ", rref));
        if (changed) c.stat("penalty changes");
      }
    }
    // every row, at every iteration
    if (P4) {
      run(k);
      VectorXd want = rho_rows(p, sol.get_rho_sparse()), got = cat_rows(sol.get_rho_vec()), inv = cat_rows(sol.inv_rho_vec_);
      if (c.check(got.size() == R && inv.size() == R, "rho-vec-size"))
        for (Eigen::Index i = 0; i < R; ++i) {
          c.check(std::fabs(got[i] - want[i]) <= 1e-12 * want[i], "rho-row", mc::cat("row ", i, ": ", got[i], " expected ", want[i]));
          c.check(std::fabs(inv[i] * got[i] - 1) <= 1e-12, "inverse-rho-row");
        }
    }
    c.state(mc::mix(mc::hdbl(n.rho), mc::mix(mc::hdbl(n.w.sum()), mc::hdbl(R ? n.y.sum() : 0))));
    a = n;
    if (inf(a.y) > 1e8 || inf(a.w) > 1e8) { c.stat("diverging"); break; }
  }
  c.traces++;
  if (R) c.nontrivial++;
  c.sample(c.cfg);
  // --- run to convergence at tight tolerances: the exact solution of the QP
  if (P3 && R && o.interval == 5 && s.nlg == 0) {
    Set q = o; q.interval = 10; q.eps_abs = 1e-9; q.eps_rel = 0;
    apply(sol, q);
    run(1500);
    if (sol.get_qp_iters() < 1500 && inf(cat_w(sol.get_dx(), sol.get_du())) < 1e3) {
      St f = snap();
      VectorXd w, la, y;
      c.stat("converged QPs");
      if (solve_qp(D, w, la, y)) {
        c.stat("exact QP solutions compared");
        c.check(inf(w - f.w) <= 1e-4 * (1 + inf(w)), "not-the-qp-solution", mc::cat("distance ", inf(w - f.w), " after ", sol.get_qp_iters()));
      }
    }
  }
  // --- whole solves: the QP of every outer iteration starts from the right warm start and penalty
  if ((P4 || P3) && gk == 1) {
    SolverCSQP so(b.problem), rf(b.problem);
    apply(so, o); apply(rf, o);
    const std::size_t maxq = 2 * per + 1;
    so.set_max_qp_iters(int(maxq)); rf.set_max_qp_iters(int(maxq));
    so.set_termination_tolerance(1e-12);
    for (int rep = 0; rep < 2; ++rep) {
      double prho = RHO_BASE; Traj py = so.y_;
      Traj pdx = so.dx_, pdu = so.du_;
      int it = 0;
      std::size_t left = 3;
      so.setCallbacks({callback([&](crocoddyl::SolverAbstract&, const std::string&) {
        c.transition();
        rf.setCandidate(so.get_xs(), so.get_us(), false);
        rf.set_preg(so.get_preg()); rf.set_dreg(so.get_dreg());
        rf.calc(true);
        rf.set_rho_sparse(prho); rf.apply_rho_update(prho);
        rf.y_ = py; rf.dx_ = pdx; rf.du_ = pdu;
        bool fine = true;
        try { rf.computeDirection(true); } catch (std::exception&) { fine = false; }
        b.problem->calc(so.get_xs(), so.get_us());
        if (fine) {
          if (P4) c.check(rf.get_rho_sparse() == so.get_rho_sparse(), "rho-at-start-of-qp", mc::cat("outer iteration ", it, " solve ", rep, ": final rho ", so.get_rho_sparse(), " expected ", rf.get_rho_sparse()));
          if (P3) {
            c.check(maxabs(rf.get_dx_tilde(), so.get_dx_tilde()) <= 1e-9 * (1 + l1(so.get_dx_tilde())), "qp-in-solve", mc::cat("outer iteration ", it, " solve ", rep));
            c.check(rf.get_qp_iters() == so.get_qp_iters(), "qp-iters-in-solve", mc::cat(rf.get_qp_iters(), " ", so.get_qp_iters()));
          }
        }
        prho = so.get_rho_sparse(); py = so.y_; pdx = so.dx_; pdu = so.du_;
        ++it;
      })});
      so.solve(xs, us, left, false, NAN);
    }
  }
}
int main(int a, char** v) {
  if (P3)
    return mc::main_check(a, v, {"C03", "stateless enumeration of CSQP's QP loop: for every problem structure and setting the real loop is run for 0..N iterations and every transition, residual, stopping decision and every QP inside a solve is compared with a dense reference",
      "T<=3, nx<=2, 5 nu patterns, row classes per node over {none,two-sided,upper,lower,equality,unbounded,pairs} (9^2 for T=1, 7^3 for T=2, 4^4 for T=3), 5 settings, 2 number tables, linear/nonlinear, 2 box widths, N=3 update intervals + 1",
      "9^2/9^3/7^4 row layouts, 7 settings incl. interval 25, 3 number tables, 2 guesses, N=5 intervals", {"numbers are taken from fixed generic tables", "decisions within 1e-6 of a threshold are accepted either way"}}, body);
  return mc::main_check(a, v, {"C04", "stateless enumeration of CSQP's QP loop: penalty of every row after every QP iteration, the penalty update at every multiple of the interval, and the starting penalty of every QP of two consecutive solves",
    "T<=2, nx<=2, 5 nu patterns, row classes per node (9^2 for T=1, 7^3 for T=2), 6 settings (intervals 1..6, adaptation 2,3,5, both update rules), 2 number tables, linear/nonlinear, 2 box widths, 3 update intervals + 1",
    "T<=3, 9^2/9^3/7^4 row layouts, 7 settings incl. interval 25, 3 number tables, 5 intervals", {"numbers are taken from fixed generic tables", "updates whose estimate lies within 1e-6 of the tolerance or at rounding level are not judged"}}, body);
}
