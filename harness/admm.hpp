// Reference model of one ADMM iteration of the stage-wise QP solver (OSQP-style splitting), in dense algebra.
#pragma once
#include "solvers.hpp"

namespace admm {
using namespace pb;

struct Set {  // settings of the QP solver
  std::size_t interval = 25; double adapt = 5, alpha = 1.6, sigma = 1e-6, eps_abs = 1e-4, eps_rel = 1e-4;
  bool heuristic = false, eqguess = true, reset_rho = false, reset_y = false, warm = false;
  double preg = 1e-9;
  std::string str() const { return mc::cat("int", interval, " adapt", adapt, " alpha", alpha, " sigma", sigma, " eps", eps_abs, "/", eps_rel, heuristic ? " heur" : "", eqguess ? "" : " noguess", reset_rho ? " rr" : "", reset_y ? " ry" : "", warm ? " warm" : "", " preg", preg); }
};
inline void apply(sv::SolverCSQP& s, const Set& o) {
  s.set_rho_update_interval(o.interval); s.set_adaptive_rho_tolerance(static_cast<std::size_t>(o.adapt));
  s.set_alpha(o.alpha); s.set_sigma(o.sigma); s.set_eps_abs(o.eps_abs); s.set_eps_rel(o.eps_rel);
  s.update_rho_with_heuristic_ = o.heuristic; s.set_equality_qp_initial_guess(o.eqguess); s.reset_rho_ = o.reset_rho; s.reset_y_ = o.reset_y;
}

struct St { VectorXd w, z, y; double rho; };  // state of the iteration

enum { RHO_MIN_EXP = -6, RHO_MAX_EXP = 3 };
const double RHO_MIN = 1e-6, RHO_MAX = 1e3, RHO_BASE = 0.1;

inline VectorXd rho_rows(const Prob& p, double rho) {
  VectorXd r(p.ngs()); int k = 0;
  for (int t = 0; t <= p.T(); ++t) for (int i = 0; i < p.node(t).ng(); ++i, ++k) {
    double lb = p.node(t).lb[i], ub = p.node(t).ub[i];
    if (lb == -INF && ub == INF) r[k] = RHO_MIN; else if (ub - lb <= 1e-6) r[k] = 1e3 * rho; else r[k] = rho;
  }
  return r;
}
inline VectorXd cat_rows(const Traj& v) { Eigen::Index n = 0; for (auto& x : v) n += x.size(); VectorXd o(n); n = 0; for (auto& x : v) { o.segment(n, x.size()) = x; n += x.size(); } return o; }
inline VectorXd cat_w(const Traj& dx, const Traj& du) {
  Eigen::Index n = 0; for (size_t t = 1; t < dx.size(); ++t) n += dx[t].size(); for (auto& u : du) n += u.size();
  VectorXd o(n); n = 0;
  for (size_t t = 1; t < dx.size(); ++t) { o.segment(n, dx[t].size()) = dx[t]; n += dx[t].size(); }
  for (auto& u : du) { o.segment(n, u.size()) = u; n += u.size(); }
  return o;
}
struct Norms { double primal = -INF, dual = -INF, primal_rel = -INF, dual_rel = -INF; };

inline double inf(const VectorXd& v) { double m = 0; for (Eigen::Index i = 0; i < v.size(); ++i) m = std::max(m, std::fabs(v[i])); return m; }

// D must hold the Hessian with preg/dreg.  Returns false when the reference itself is unreliable.
inline bool step(const Dense& D, const VectorXd& rho, const Set& o, const St& a, St& b) {
  const Eigen::Index N = D.H.rows();
  MatrixXd H = D.H + o.sigma * MatrixXd::Identity(N, N) + D.C.transpose() * rho.asDiagonal() * D.C;
  VectorXd h = D.h - o.sigma * a.w + D.C.transpose() * (a.y - rho.cwiseProduct(a.z));
  VectorXd lam;
  if (!solve_eq(H, h, D.Eq, D.eq, b.w, lam)) return false;
  VectorXd cw = D.C * b.w;
  VectorXd zr = o.alpha * cw + (1 - o.alpha) * a.z;
  b.z = (zr + a.y.cwiseQuotient(rho)).cwiseMax(D.l).cwiseMin(D.u);
  b.y = a.y + rho.cwiseProduct(zr - b.z);
  return true;
}
// Residual norms of the iteration b reached from a, node by node as specified (gradients with respect to dx and du apart).
inline Norms norms(const Prob& p, const Lin& L, const Dense& D, const VectorXd& rho, const Set& o, const St& a, const St& b) {
  Norms n;
  VectorXd cw = D.C * b.w;
  int r = 0;
  for (int t = 0; t <= p.T(); ++t) {
    const int ng = p.node(t).ng();
    if (!ng) continue;
    VectorXd c = cw.segment(r, ng), z = b.z.segment(r, ng), y = b.y.segment(r, ng), d = rho.segment(r, ng).cwiseProduct(z - a.z.segment(r, ng));
    n.primal = std::max(n.primal, inf(c - z));
    n.primal_rel = std::max({n.primal_rel, inf(c), inf(z)});
    if (o.heuristic) { n.dual = std::max(n.dual, inf(d)); n.dual_rel = std::max(n.dual_rel, inf(y)); }
    else {
      const size_t s = static_cast<size_t>(t);
      n.dual = std::max(n.dual, inf(L.Gx[s].transpose() * d)); n.dual_rel = std::max(n.dual_rel, inf(L.Gx[s].transpose() * y));
      if (t < p.T()) { n.dual = std::max(n.dual, inf(L.Gu[s].transpose() * d)); n.dual_rel = std::max(n.dual_rel, inf(L.Gu[s].transpose() * y)); }
    }
    r += ng;
  }
  return n;
}
}  // namespace admm
