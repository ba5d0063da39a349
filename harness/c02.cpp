// C02: every SQP direction and its multipliers solve the regularised LQ subproblem.
#include "mc.hpp"
#include "solvers.hpp"
using namespace pb; using namespace sv;

static void body(mc::Ctx& c) {
  Shape s;
  const int Tmax = c.thorough ? 5 : 4;
  s.T = 1 + c.choose(Tmax);
  s.n = 1 + c.choose(s.T > 3 ? 2 : 3);
  for (int t = 0; t < s.T; ++t) s.m.push_back((2 + c.choose(3)) % 3);
  s.variant = c.choose(c.thorough ? 3 : 2);
  c.shard();
  const int nl = c.choose(3);       // LQ, nonlinear, nonlinear with an inexact Hessian
  if (nl) { s.nlf = 0.4; s.nlx = 0.3; s.nlu = 0.2; }
  if (nl == 2) s.hs = 0.5;
  s.circle = nl != 0 && c.flag();
  const int indef = c.choose(3);    // 0 convex, 1 slightly indefinite control cost, 2 strongly
  const int gk = c.choose(2) + (c.thorough ? 0 : 0);
  const double reginit = c.pick(std::vector<double>{NANV, 0.25});
  const bool filter = c.flag();
  Prob p = make(s);
  if (indef) for (int t = 0; t < s.T; ++t) if (t % 2 == s.T % 2) p.run[static_cast<size_t>(t)].R.diagonal().array() -= indef == 1 ? 1.0 : 40.0;
  c.cfg = s.str() + mc::cat(" indef", indef, " guess", gk, " reg", reginit, " filter", filter);
  Built b = build(p);
  Traj xs, us;
  guess(p, gk, s.variant, xs, us);
  SolverSQP sol(b.problem);
  sol.set_use_filter_line_search(filter);
  sol.set_termination_tolerance(1e-9);
  long calls = 0;
  sol.setCallbacks({callback([&](crocoddyl::SolverAbstract&, const std::string&) {
    ++calls; c.transition();
    const Traj &X = sol.get_xs(), &U = sol.get_us(), &dx = sol.get_dx(), &du = sol.get_du(), &lm = sol.lag_mul_;
    Eval e = evaluate(p, X, U);
    Lin L = linearise(p, X, U);
    if (!e.finite) { c.stat("nonfinite iterate"); return; }
    const double pr = sol.get_preg(), dr = sol.get_dreg();
    const int T = p.T();
    c.state(mc::mix(mc::hdbl(pr), mc::mix(mc::hdbl(e.cost), mc::hdbl(e.gap1))));
    if (!c.check(dx.size() == size_t(T) + 1 && du.size() == size_t(T) && lm.size() == size_t(T) + 1, "sizes")) return;
    c.check(dx[0].size() == p.n() && dx[0].lpNorm<1>() <= 1e-12, "dx0-nonzero");
    double worst = 0, scale = 1;
    const char* where = "";
    auto upd = [&](const VectorXd& r, double sc, const char* w) { if (r.size() == 0) return; double v = r.cwiseAbs().maxCoeff() / sc; if (!(v <= worst)) { worst = std::isnan(v) ? INF : v; where = w; } };
    for (int t = 0; t <= T; ++t) {
      const size_t k = size_t(t);
      if (dx[k].size() != p.n() || lm[k].size() != p.n()) { c.check(false, "sizes"); return; }
      scale = std::max({scale, dx[k].cwiseAbs().maxCoeff(), lm[k].cwiseAbs().maxCoeff()});
      if (t < T) { if (du[k].size() != p.run[k].m) { c.check(false, "sizes"); return; } if (du[k].size()) scale = std::max(scale, du[k].cwiseAbs().maxCoeff()); }
    }
    const double sc = scale * (1 + pr + 40);
    for (int t = 0; t < T; ++t) {
      const size_t k = size_t(t);
      VectorXd r = dx[k + 1] - L.Fx[k] * dx[k] - e.gap[k + 1];
      if (du[k].size()) r -= L.Fu[k] * du[k];
      upd(r, scale, "linearised dynamics");
      if (du[k].size()) {
        VectorXd ru = L.Lu[k] + L.Luu[k] * du[k] + dr * du[k] + L.Lxu[k].transpose() * dx[k] + L.Fu[k].transpose() * lm[k + 1];
        upd(ru, sc, "stationarity in u");
      }
      VectorXd rx = L.Lx[k] + L.Lxx[k] * dx[k] + pr * dx[k] + L.Fx[k].transpose() * lm[k + 1] - lm[k];
      if (du[k].size()) rx += L.Lxu[k] * du[k];
      upd(rx, sc, "stationarity in x");
    }
    VectorXd rT = L.Lx[size_t(T)] + L.Lxx[size_t(T)] * dx[size_t(T)] + pr * dx[size_t(T)] - lm[size_t(T)];
    upd(rT, sc, "terminal stationarity");
    c.check(worst <= 1e-7, std::string("residual: ") + where, mc::cat("iter ", sol.get_iter(), " relative residual ", worst, " preg ", pr));
    // and the dense solution itself, where the system is well conditioned
    if (p.nus() > 0) {
      Dense D = stack(p, L, e, pr, dr);
      VectorXd w, lam;
      MatrixXd C(0, D.H.cols());
      if (solve_eq(D.H, D.h, D.Eq, D.eq, w, lam) && w.cwiseAbs().maxCoeff() < 1e4) {
        double diff = 0;
        for (int t = 0; t < T; ++t) { diff = std::max(diff, (w.segment(D.ix[size_t(t) + 1], p.n()) - dx[size_t(t) + 1]).cwiseAbs().maxCoeff());
          if (du[size_t(t)].size()) diff = std::max(diff, (w.segment(D.iu[size_t(t)], du[size_t(t)].size()) - du[size_t(t)]).cwiseAbs().maxCoeff()); }
        c.check(diff <= 1e-5 * (1 + w.cwiseAbs().maxCoeff()), "dense-mismatch", mc::cat("difference ", diff));
        c.stat("dense solutions compared");
      }
    }
    // the reported direction norms
    c.check(close(sol.get_xgrad_norm(), l1(dx) / (T + 1), 1e-9, 1e-12) && close(sol.get_ugrad_norm(), l1(du) / T, 1e-9, 1e-12), "direction-norms");
  })});
  sol.solve(xs, us, 4, false, reginit);
  c.traces++;
  if (calls > 1) c.nontrivial++;
  if (calls == 0) c.stat("no direction (regularisation exhausted)");
  c.sample(c.cfg);
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C02", "stateless enumeration of the real SolverSQP::solve: every problem structure, nonlinearity, indefiniteness, guess, regularisation and line-search mode; every direction of every iteration compared with the KKT system of the independently linearised problem",
    "T<=4, nx<=3, nu in {0,1,2} per node (all patterns), 2 number tables, 3 nonlinearity classes, manifold on/off, 3 definiteness classes, 2 guesses, 2 regularisations, filter/merit, 4 iterations",
    "T<=5, nx<=3, nu in {0,1,2} per node (all patterns), 3 number tables, otherwise as quick", {"numbers are taken from fixed generic tables", "relative tolerance 1e-7 on KKT residuals"}}, body);
}
