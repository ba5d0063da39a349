// A solver with its problem, and the complete log of a solve (used to compare two solver objects bit for bit).
#pragma once
#include "mon.hpp"
using namespace mon;

template <class S> struct Tr {
  static constexpr bool csqp = std::is_same<S, SolverCSQP>::value, prox = std::is_same<S, SolverPROXQP>::value, sqp = std::is_same<S, SolverSQP>::value;
  static constexpr bool con = csqp || prox, ddpf = std::is_same<S, SolverDDP>::value || std::is_same<S, SolverFDDP>::value, fddp = std::is_same<S, SolverFDDP>::value, extra = sqp || csqp;
  static const char* name() { return csqp ? "CSQP " : prox ? "PROXQP " : sqp ? "SQP " : fddp ? "FDDP " : "DDP "; }
};
struct Opt { int ls = 0; bool extra = false, eqg = true, rrho = false, remove_reg = false; double tol = 1e-6; int qp = 100; size_t fs = 1; std::vector<double> alphas{1, 0.5, 0.25, 0.125}; double rmin = 1e-9, rmax = 1e9, inc = 10, dec = 10, mu = 3; size_t interval = 5; };

struct Faults : pb::Hooks {
  std::function<void(int, crocoddyl::ActionDataAbstract&)> calc, diff;
  void on_calc(int n, crocoddyl::ActionDataAbstract& d, const VectorXd&, const VectorXd&) override { if (calc) calc(n, d); }
  void on_diff(int n, crocoddyl::ActionDataAbstract& d, const VectorXd&, const VectorXd&) override { if (diff) diff(n, d); }
};
typedef std::vector<double> Log;
template <class S> struct Rig {
  const pb::Prob& p; Faults f; pb::Built b; std::unique_ptr<S> s; Log log; int cb_throw = -1, ncb = 0;
  explicit Rig(const pb::Prob& p_) : p(p_), b(pb::build(p_, &f)) {
    std::streambuf* e = std::cerr.rdbuf(nullptr); s.reset(new S(b.problem)); std::cerr.rdbuf(e);
    if constexpr (!Tr<S>::prox) s->setCallbacks({callback([this](crocoddyl::SolverAbstract& a, const std::string&) {
      if (cb_throw == ncb++) throw std::runtime_error("callback");
      push(a);
    })});
  }
  void push(crocoddyl::SolverAbstract& a) {
    log.push_back(double(a.get_iter())); log.push_back(a.get_cost());
    if constexpr (!Tr<S>::ddpf) log.push_back(a.get_merit());
    log.push_back(s->get_KKT());
    if constexpr (!Tr<S>::ddpf) { log.push_back(s->get_gap_norm()); log.push_back(s->get_xgrad_norm()); log.push_back(s->get_ugrad_norm()); }
    log.push_back(a.get_preg()); log.push_back(a.get_steplength());
    if constexpr (Tr<S>::con) { log.push_back(s->get_constraint_norm()); log.push_back(double(s->get_qp_iters())); log.push_back(s->get_norm_primal()); log.push_back(s->get_norm_dual()); }
  }
  void opts(const Opt& o) {
    std::streambuf* e = std::cerr.rdbuf(nullptr);
    s->set_alphas(o.alphas);
    std::cerr.rdbuf(e);
    s->set_reg_min(o.rmin); s->set_reg_max(o.rmax); s->set_reg_incfactor(o.inc); s->set_reg_decfactor(o.dec);
    s->set_termination_tolerance(o.tol);
    if constexpr (!std::is_same<S, SolverDDP>::value) { s->set_use_filter_line_search(o.ls == 0); s->set_filter_size(o.fs); }
    if constexpr (Tr<S>::extra) s->set_extra_iteration_for_last_kkt(o.extra);
    if constexpr (Tr<S>::extra || Tr<S>::prox) s->set_mu_dynamic(o.ls == 2 && Tr<S>::csqp ? -1 : o.mu);
    if constexpr (Tr<S>::con) { s->set_mu_constraint(o.mu); s->set_max_qp_iters(Tr<S>::prox ? std::max(o.qp, 50) : o.qp); s->set_eps_abs(1e-7); s->set_eps_rel(0); }
    if constexpr (Tr<S>::csqp) { s->reset_y_ = true; s->reset_rho_ = o.rrho; s->remove_reg_ = o.remove_reg; s->set_equality_qp_initial_guess(o.eqg); s->set_rho_update_interval(o.interval); }
  }
  int solve(const Traj& xs, const Traj& us, size_t N, double reg = pb::NANV, bool feasible = false) {
    log.clear(); ncb = 0;
    int r; try { r = s->solve(xs, us, N, feasible, reg); } catch (std::exception&) { r = -1; }
    return r;
  }
  Log result(int ret) {
    Log l = log; l.push_back(ret); push(*s); l.insert(l.end(), log.begin(), log.end());
    for (auto* t : {&s->get_xs(), &s->get_us()}) for (auto& v : *t) for (int i = 0; i < v.size(); ++i) l.push_back(v[i]);
    return l;
  }
};
static std::string diff(const Log& a, const Log& b) {
  if (a.size() != b.size()) return mc::cat("lengths ", a.size(), " and ", b.size());
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return mc::cat("entry ", i, ": ", a[i], " and ", b[i]);
  return "";
}
