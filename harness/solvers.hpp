// Uniform access to the C++ solvers through their public interface.
#pragma once
#include <mim_solvers/csqp.hpp>
#include <mim_solvers/csqp_proxqp.hpp>
#include <mim_solvers/fddp.hpp>
#include <mim_solvers/sqp.hpp>
#include "gen.hpp"

namespace sv {
using mim_solvers::SolverCSQP;
using mim_solvers::SolverDDP;
using mim_solvers::SolverFDDP;
using mim_solvers::SolverPROXQP;
using mim_solvers::SolverSQP;
using pb::MatrixXd;
using pb::Traj;
using pb::VectorXd;

struct FnCallback : mim_solvers::CallbackAbstract {
  std::function<void(crocoddyl::SolverAbstract&, const std::string&)> fn;
  explicit FnCallback(std::function<void(crocoddyl::SolverAbstract&, const std::string&)> f) : fn(f) {}
  void operator()(crocoddyl::SolverAbstract& s) override { fn(s, ""); }
  void operator()(crocoddyl::SolverAbstract& s, std::string type) override { fn(s, type); }
};
inline std::shared_ptr<FnCallback> callback(std::function<void(crocoddyl::SolverAbstract&, const std::string&)> f) { return std::make_shared<FnCallback>(f); }

inline double maxabs(const Traj& a, const Traj& b) {
  if (a.size() != b.size()) return pb::INF;
  double m = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].size() != b[i].size()) return pb::INF;
    for (Eigen::Index j = 0; j < a[i].size(); ++j) {
      double d = std::fabs(a[i][j] - b[i][j]);
      if (std::isnan(a[i][j]) && std::isnan(b[i][j])) continue;
      if (std::isnan(d)) return pb::INF;
      m = std::max(m, d);
    }
  }
  return m;
}
inline bool close(double a, double b, double rtol, double atol) {
  if (std::isnan(a) && std::isnan(b)) return true;
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
inline double l1(const Traj& v) { double s = 0; for (auto& x : v) s += x.lpNorm<1>(); return s; }
inline bool same_start(const Traj& xs, const VectorXd& x0) {
  if (xs.empty() || xs[0].size() != x0.size()) return false;
  return (xs[0] - x0).lpNorm<1>() == 0;
}
}  // namespace sv
