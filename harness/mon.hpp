// Everything SolverSQP / SolverCSQP report about an iterate, recomputed from the problem.
#pragma once
#include "rec.hpp"

namespace mon {
using namespace sv;
using pb::Eval; using pb::Lin; using pb::Prob;

inline double inf_norm(const VectorXd& v) { double m = 0; for (int i = 0; i < v.size(); ++i) { if (std::isnan(v[i])) return pb::NANV; m = std::max(m, std::fabs(v[i])); } return m; }

// first-order residual with the multipliers the solver exposes
template <class S> double kkt(const S& s, const Prob& p, const Eval& e, const Lin& L) {
  constexpr bool con = !std::is_same<S, SolverSQP>::value;
  double k = 0;
  auto up = [&](const VectorXd& r) { double v = inf_norm(r); if (std::isnan(v)) k = pb::NANV; if (!std::isnan(k)) k = std::max(k, v); };
  for (int t = 0; t <= p.T(); ++t) {
    const size_t i = size_t(t);
    VectorXd rx = L.Lx[i] - s.lag_mul_[i];
    if (t < p.T()) rx += L.Fx[i].transpose() * s.lag_mul_[i + 1];
    if constexpr (con) if (t > 0 && p.node(t).ng()) rx += L.Gx[i].transpose() * s.y_[i];
    up(rx);
    if (t < p.T() && p.run[i].m) {
      VectorXd ru = L.Lu[i] + L.Fu[i].transpose() * s.lag_mul_[i + 1];
      if constexpr (con) if (p.node(t).ng()) ru += L.Gu[i].transpose() * s.y_[i];
      up(ru);
    }
    up(e.gap[i]);
  }
  if (std::isnan(e.con1)) return pb::NANV;
  if constexpr (con) if (!std::isnan(k)) k = std::max(k, e.con1);
  return k;
}
template <class S> double merit(const S& s, const Eval& e) {
  if constexpr (std::is_same<S, SolverSQP>::value) return e.cost + s.get_mu_dynamic() * e.gap1;
  else {
    if constexpr (std::is_same<S, SolverCSQP>::value)
      if (s.get_mu_dynamic() < 0 || s.get_mu_constraint() < 0) return e.cost + s.get_lag_mul_inf_norm_coef() * rec::lagmax(s) * (e.gap1 + e.con1);
    return e.cost + s.get_mu_dynamic() * e.gap1 + s.get_mu_constraint() * e.con1;
  }
}
// returns "" or what disagrees
template <class S> std::string compare(S& s, const Prob& p, bool with_merit = true) {
  constexpr bool con = !std::is_same<S, SolverSQP>::value;
  const Traj &xs = s.get_xs(), &us = s.get_us();
  const int T = p.T();
  std::ostringstream o; o.precision(12);
  const Eval e = pb::evaluate(p, xs, us);
  const Lin L = pb::linearise(p, xs, us);
  auto cmp = [&](const char* w, double got, double want, double scale) { if (!close(got, want, 1e-8, 1e-10 * (1 + scale))) o << w << " is " << got << ", should be " << want << "; "; };
  cmp("cost", s.get_cost(), e.cost, 1);
  cmp("gap norm", s.get_gap_norm(), e.gap1, 1);
  if constexpr (con) cmp("constraint norm", s.get_constraint_norm(), e.con1, 1);
  const double lm = rec::lagmax(s);
  cmp("KKT", s.get_KKT(), kkt(s, p, e, L), 1 + lm + std::fabs(e.cost));
  if (with_merit) cmp("merit", s.get_merit(), merit(s, e), 1 + lm);
  cmp("state direction norm", s.get_xgrad_norm(), l1(s.get_dx()) / (T + 1), 1);
  cmp("control direction norm", s.get_ugrad_norm(), l1(s.get_du()) / T, 1);
  const Traj& fs = s.get_fs();
  if (fs.size() != size_t(T) + 1) o << "fs has " << fs.size() << " entries; ";
  else for (int t = 0; t <= T; ++t) { if (maxabs({fs[size_t(t)]}, {e.gap[size_t(t)]}) > 1e-9) o << "fs[" << t << "] is " << fs[size_t(t)].transpose() << ", should be " << e.gap[size_t(t)].transpose() << "; "; }
  // the direction belongs to this iterate: linearised dynamics with its gaps
  double r = 0;
  for (int t = 0; t < T; ++t) {
    const size_t i = size_t(t);
    VectorXd d = s.get_dx()[i + 1] - L.Fx[i] * s.get_dx()[i] - e.gap[i + 1];
    if (p.run[i].m) d -= L.Fu[i] * s.get_du()[i];
    r = std::max(r, inf_norm(d) / (1 + inf_norm(s.get_dx()[i + 1]) + inf_norm(s.get_dx()[i]) + inf_norm(s.get_du()[i])));
  }
  if (!(r < 1e-8)) o << "direction violates the linearised dynamics of the iterate by " << r << "; ";
  return o.str();
}
// the same quantities through the base classes
template <class S> std::string compare_base(S& s) {
  std::ostringstream o; o.precision(12);
  crocoddyl::SolverAbstract& a = s; mim_solvers::SolverDDP& d = s;
  auto cmp = [&](const char* w, double got, double want) { if (!(got == want || (std::isnan(got) && std::isnan(want)))) o << w << " through the base class is " << got << ", should be " << want << "; "; };
  cmp("cost", a.get_cost(), s.get_cost());
  cmp("merit", a.get_merit(), s.get_merit());
  cmp("KKT", d.get_KKT(), s.get_KKT());
  cmp("termination tolerance", d.get_termination_tolerance(), s.get_termination_tolerance());
  cmp("step length", a.get_steplength(), s.get_steplength());
  if (maxabs(a.get_xs(), s.get_xs()) != 0 || maxabs(a.get_us(), s.get_us()) != 0) o << "trajectory differs through the base class; ";
  return o.str();
}
}  // namespace mon
