// Records the iterates and directions of a solve on a real problem through the model evaluations only:
// an iterate is where the derivatives are evaluated, its direction is what the solver exposes at the first
// model evaluation that follows.
#pragma once
#include "solvers.hpp"

namespace rec {
using namespace sv;
using pb::Prob;

struct It { Traj xs, us; bool dir = false; Traj dx, du; double preg = 0, lam = 0; };

struct Recorder : pb::Hooks {
  int T = 0;
  std::vector<It> its;
  std::function<void(It&)> snapshot;
  bool open = false;
  // optional faults: called with the number of the evaluation since start()
  std::function<void(long, int, crocoddyl::ActionDataAbstract&, const VectorXd&, const VectorXd&)> fault, dfault;
  long ncalc = 0, ndiff = 0;
  void start(int T_) { T = T_; its.clear(); open = false; ncalc = ndiff = 0; }
  void on_calc(int node, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd& u) override {
    if (open && !its.empty() && !its.back().dir) { its.back().dir = true; open = false; if (snapshot) snapshot(its.back()); }
    if (fault) fault(ncalc, node, d, x, u);
    ncalc++;
  }
  void on_diff(int node, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd& u) override {
    if (node == 0) its.push_back(It{});
    if (its.empty()) its.push_back(It{});
    its.back().xs.push_back(x);
    if (node < T) its.back().us.push_back(u);
    else open = true;
    if (dfault) dfault(ndiff, node, d, x, u);
    ndiff++;
  }
};

template <class S> double lagmax(const S& s) {
  double m = 0;
  for (auto& v : s.lag_mul_) for (int i = 0; i < v.size(); ++i) m = std::max(m, std::fabs(v[i]));
  if constexpr (!std::is_same<S, SolverSQP>::value) for (auto& v : s.y_) for (int i = 0; i < v.size(); ++i) m = std::max(m, std::fabs(v[i]));
  return m;
}
template <class S> void attach(Recorder& r, S& s) {
  S* p = &s;
  r.snapshot = [p](It& i) { i.dx = p->get_dx(); i.du = p->get_du(); i.preg = p->get_preg(); i.lam = lagmax(*p); };
}

// (SolverDDP and SolverFDDP do not expose their directions)
template <class S> void attach_if(Recorder& r, S& s) {
  if constexpr (std::is_same<S, mim_solvers::SolverDDP>::value || std::is_same<S, mim_solvers::SolverFDDP>::value) { S* p = &s; r.snapshot = [p](It& i) { i.preg = p->get_preg(); }; }
  else attach(r, s);
}

// xs + a dx on the problem's manifold
inline Traj step_x(const Prob& p, const pb::Built& b, const Traj& xs, const Traj& dx, double a) {
  Traj o = xs;
  for (size_t t = 0; t < xs.size(); ++t) { VectorXd d = a * dx[t]; b.state->integrate(xs[t], d, o[t]); }
  (void)p;
  return o;
}
inline Traj step_u(const Traj& us, const Traj& du, double a) { Traj o = us; for (size_t t = 0; t < us.size(); ++t) if (us[t].size()) o[t] = us[t] + a * du[t]; return o; }
}  // namespace rec
