// C16: problems with native equality constraints are rejected; option setters reject exactly the invalid values.
#include "mc.hpp"
#include "mon.hpp"
using namespace mon;

// ---- construction ------------------------------------------------------------------------
static void construction(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s; s.T = 1 + c.choose(th ? 4 : 3); s.n = 1 + c.choose(2);
  const int mpat = c.choose(3);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : mpat == 1 ? 2 - t % 2 : t % 2);
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}};
  const int rp = c.choose(3);
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[size_t(rp == 2 ? t % 3 : rp)]);
  pb::Prob p = pb::make(s);
  const int which = c.choose(2);
  c.shard();
  int total = 0; std::ostringstream o;
  for (int t = 0; t <= s.T; ++t) { const int nh = c.choose(3); (t == s.T ? p.term : p.run[size_t(t)]).nh = nh; total += nh; o << nh; }
  c.cfg = mc::cat("construct ", which ? "PROXQP " : "CSQP ", s.str(), " nh ", o.str());
  pb::Built b = pb::build(p);
  bool thrown = false;
  std::streambuf* e = std::cerr.rdbuf(nullptr);
  try { if (which) SolverPROXQP q(b.problem); else SolverCSQP q(b.problem); } catch (std::exception&) { thrown = true; }
  std::cerr.rdbuf(e);
  c.check(thrown == (total > 0), thrown ? "valid-problem-rejected" : "unsupported-problem-accepted", "");
  c.state(mc::mix(uint64_t(total), uint64_t(thrown))); c.traces++; c.transition(); if (total) c.nontrivial++;
  c.stat(thrown ? "rejected" : "constructed");
  c.sample(c.cfg);
}

// ---- option setters: a model of the options, and the solver, driven by the same calls -------
enum Id { INC, DEC, FAC, RMIN, RMAX, RMIN2, RMAX2, STEPDEC, STEPINC, GRAD, NEG, ALPHAS, TOL, FILTER, MU, LS, EXTRA, MUC, ALPHA, SIGMA, QP, EPSA, EPSR, INTERVAL, LAGC, EQG, TIME, RHOTOL, N_ID };
static const char* IDN[] = {"reg_incfactor", "reg_decfactor", "regfactor", "reg_min", "reg_max", "regmin", "regmax", "th_stepdec", "th_stepinc", "th_grad", "th_acceptnegstep", "alphas", "tol", "filter_size", "mu_dynamic", "filter-on", "extra", "mu_constraint", "alpha", "sigma", "max_qp_iters", "eps_abs", "eps_rel", "interval", "lagcoef", "eqguess", "max_time", "rho_tol"};
static const double EPS = 1e-12;
static const std::vector<std::vector<double>> LISTS = {{1}, {1, 0.5}, {1, 1}, {1, 0.5, 0.5}, {0.5, 1}, {1, 0}, {1, -0.5}, {1, 0.5, 0}, {1, 0.5, 0.25, 0.125}, {1, 0.25, 0.5}, {}, {0}, {-1}, {-1, -2}, {0.5}, {1, 1e-300}, {1, 0.5, 0.25, 0.3}, {0, -1}};
static const std::vector<double> VALS = {-1, -EPS, 0, EPS, 0.5, 1, 1 + EPS, 2, 1e10};

struct Opts {  // the model
  std::map<int, double> v; std::vector<double> alphas;
};
template <class S> struct Drive {
  static constexpr bool csqp = std::is_same<S, SolverCSQP>::value, prox = std::is_same<S, SolverPROXQP>::value, sqp = std::is_same<S, SolverSQP>::value, ddp = std::is_same<S, SolverDDP>::value, fddp = std::is_same<S, SolverFDDP>::value;
  static const char* name() { return csqp ? "CSQP " : prox ? "PROXQP " : sqp ? "SQP " : ddp ? "DDP " : "FDDP "; }
  static bool has(int id) {
    if (id == NEG) return fddp;
    if (id <= ALPHAS || id == TOL) return true;
    if (id == FILTER || id == LS) return !ddp;
    if (id == MU) return sqp || csqp || prox;
    if (id == EXTRA) return sqp || csqp;
    if (id == MUC || id == QP || id == EPSA || id == EPSR) return csqp || prox;
    return csqp;
  }
  static double get(S& s, int id) {
    switch (id) {
      case INC: return s.get_reg_incfactor(); case DEC: return s.get_reg_decfactor(); case FAC: return s.get_regfactor();
      case RMIN: return s.get_reg_min(); case RMAX: return s.get_reg_max(); case RMIN2: return s.get_regmin(); case RMAX2: return s.get_regmax();
      case STEPDEC: return s.get_th_stepdec(); case STEPINC: return s.get_th_stepinc(); case GRAD: return s.get_th_grad();
      case TOL: return s.get_termination_tolerance();
      default: break;
    }
    if constexpr (fddp) if (id == NEG) return s.get_th_acceptnegstep();
    if constexpr (!ddp) { if (id == FILTER) return double(s.get_filter_size()); if (id == LS) return s.get_use_filter_line_search(); }
    if constexpr (sqp || csqp || prox) if (id == MU) return s.get_mu_dynamic();
    if constexpr (sqp || csqp) if (id == EXTRA) return s.get_extra_iteration_for_last_kkt();
    if constexpr (csqp || prox) { if (id == MUC) return s.get_mu_constraint(); if (id == QP) return double(s.get_max_qp_iters()); if (id == EPSA) return s.get_eps_abs(); if (id == EPSR) return s.get_eps_rel(); }
    if constexpr (csqp) { if (id == ALPHA) return s.get_alpha(); if (id == SIGMA) return s.get_sigma(); if (id == INTERVAL) return double(s.get_rho_update_interval()); if (id == LAGC) return s.get_lag_mul_inf_norm_coef(); if (id == EQG) return s.get_equality_qp_initial_guess(); if (id == TIME) return s.get_max_solve_time(); if (id == RHOTOL) return double(s.get_adaptive_rho_tolerance()); }
    return 0;
  }
  static void set(S& s, int id, double v) {
    switch (id) {
      case INC: s.set_reg_incfactor(v); return; case DEC: s.set_reg_decfactor(v); return; case FAC: s.set_regfactor(v); return;
      case RMIN: s.set_reg_min(v); return; case RMAX: s.set_reg_max(v); return; case RMIN2: s.set_regmin(v); return; case RMAX2: s.set_regmax(v); return;
      case STEPDEC: s.set_th_stepdec(v); return; case STEPINC: s.set_th_stepinc(v); return; case GRAD: s.set_th_grad(v); return;
      case TOL: s.set_termination_tolerance(v); return;
      default: break;
    }
    if constexpr (fddp) if (id == NEG) s.set_th_acceptnegstep(v);
    if constexpr (!ddp) { if (id == FILTER) s.set_filter_size(size_t(v)); if (id == LS) s.set_use_filter_line_search(v != 0); }
    if constexpr (sqp || csqp || prox) if (id == MU) s.set_mu_dynamic(v);
    if constexpr (sqp || csqp) if (id == EXTRA) s.set_extra_iteration_for_last_kkt(v != 0);
    if constexpr (csqp || prox) { if (id == MUC) s.set_mu_constraint(v); if (id == QP) s.set_max_qp_iters(int(v)); if (id == EPSA) s.set_eps_abs(v); if (id == EPSR) s.set_eps_rel(v); }
    if constexpr (csqp) { if (id == ALPHA) s.set_alpha(v); if (id == SIGMA) s.set_sigma(v); if (id == INTERVAL) s.set_rho_update_interval(size_t(v)); if (id == LAGC) s.set_lag_mul_inf_norm_coef(v); if (id == EQG) s.set_equality_qp_initial_guess(v != 0); if (id == TIME) s.set_max_solve_time(v); if (id == RHOTOL) s.set_adaptive_rho_tolerance(size_t(v)); }
  }
  // documented domain
  static bool valid(int id, double v) {
    switch (id) {
      case INC: case DEC: case FAC: return v > 1;
      case RMIN: case RMAX: case RMIN2: case RMAX2: case GRAD: case NEG: return v >= 0;
      case STEPDEC: case STEPINC: return v > 0 && v <= 1;
      case INTERVAL: return v > 0;
      default: return true;
    }
  }
  static bool valid_list(const std::vector<double>& a) {
    for (size_t i = 0; i < a.size(); ++i) if (a[i] <= 0 || (i && a[i] >= a[i - 1])) return false;
    return !a.empty();
  }
  static bool kind_bool(int id) { return id == LS || id == EXTRA || id == EQG; }
  static bool kind_int(int id) { return id == FILTER || id == QP || id == INTERVAL || id == RHOTOL; }
};
static int first_of(int id) { return id == RMIN2 ? RMIN : id == RMAX2 ? RMAX : id; }
template <class S> static void setters(mc::Ctx& c) {
  typedef Drive<S> D;
  const int len = 1 + c.choose(c.thorough ? 3 : 2);
  struct Call { int id; double v; std::vector<double> list; };
  std::vector<Call> calls; std::ostringstream o;
  for (int i = 0; i < len; ++i) {
    Call k; k.id = c.choose(i < 2 ? int(N_ID) : int(ALPHAS) + 1);
    if (!D::has(k.id)) return;
    if (k.id == ALPHAS) { k.list = LISTS[size_t(c.choose(int(LISTS.size())))]; k.v = double(k.list.size()); o << "alphas[" << k.list.size() << "]"; for (double a : k.list) o << a << ","; }
    else {
      if (D::kind_bool(k.id)) k.v = c.choose(2);
      else if (D::kind_int(k.id)) k.v = double(c.pick(std::vector<int>{1, 0, 2, 7, 1000}));
      else k.v = c.pick(VALS);
      if (i == 2 && k.v != 2 && k.v != 0.5 && k.v != -1) return;
    }
    if (k.id != ALPHAS) o << IDN[k.id] << "=" << k.v;
    o << " ";
    calls.push_back(k);
    if (i == 0) c.shard();
  }
  c.cfg = mc::cat(D::name(), "setters ", o.str());
  pb::Shape sh; sh.T = 1; sh.n = 1; sh.m = {1}; sh.rows = {{}, {}};
  const pb::Prob p = pb::make(sh); pb::Built b = pb::build(p);
  std::streambuf* e = std::cerr.rdbuf(nullptr);
  S s(b.problem);
  Opts m; for (int id = 0; id < N_ID; ++id) if (D::has(id) && id != ALPHAS) m.v[id] = D::get(s, id);
  m.alphas = s.get_alphas();
  bool ok = true;
  for (auto& k : calls) {
    bool thrown = false;
    try { if (k.id == ALPHAS) s.set_alphas(k.list); else D::set(s, k.id, k.v); } catch (std::exception&) { thrown = true; }
    const bool want = k.id == ALPHAS ? D::valid_list(k.list) : D::valid(k.id, k.v);
    ok = ok && c.check(thrown == !want, mc::cat(want ? "valid-value-rejected " : "invalid-value-accepted ", IDN[k.id]), "");
    if (want) {
      if (k.id == ALPHAS) m.alphas = k.list;
      else { m.v[first_of(k.id)] = k.v; if (k.id == FAC) m.v[INC] = m.v[DEC] = k.v; if (k.id == INC) m.v[FAC] = k.v; if (k.id == RMIN || k.id == RMIN2) m.v[RMIN] = m.v[RMIN2] = k.v; if (k.id == RMAX || k.id == RMAX2) m.v[RMAX] = m.v[RMAX2] = k.v; }
      c.stat("accepted");
    } else { c.stat("rejected value"); c.nontrivial++; }
    // every getter, not only the one of the option that was set
    for (auto& kv : m.v) ok = ok && c.check(D::get(s, kv.first) == kv.second, mc::cat("getter ", IDN[kv.first]), mc::cat("after ", IDN[k.id], ": ", D::get(s, kv.first), " expected ", kv.second));
    ok = ok && c.check(s.get_alphas() == m.alphas, "getter alphas", mc::cat("after ", IDN[k.id]));
    c.transition();
  }
  std::cerr.rdbuf(e);
  uint64_t h = uint64_t(ok); for (auto& kv : m.v) h = mc::mix(h, mc::hdbl(kv.second));
  c.state(mc::mix(h, m.alphas.size())); c.traces++;
  c.sample(c.cfg);
}
// ---- step lengths and the effect of accepted values ----------------------------------------
template <class S> static void effects(mc::Ctx& c) {
  typedef Drive<S> D;
  pb::Shape sh; sh.T = 1 + c.choose(3); sh.n = 1 + c.choose(2); for (int t = 0; t < sh.T; ++t) sh.m.push_back(1 + t % 2);
  static const std::vector<std::vector<int>> CLS = {{}, {pb::TWO}};
  const bool rows = (D::csqp || D::prox) && c.flag();
  for (int t = 0; t <= sh.T; ++t) sh.rows.push_back(CLS[rows]);
  sh.nlf = 0.5; sh.nlx = 0.5;
  const double a = c.pick(std::vector<double>{0, 1, 0.5, -EPS, 1 + EPS, -1, 2, 1e300, -pb::INF, pb::INF, 1e-300});
  const int before = c.choose(2);
  c.shard();
  const pb::Prob p = pb::make(sh); pb::Built b = pb::build(p);
  c.cfg = mc::cat(D::name(), "trial step ", a, " ", sh.str(), " before ", before);
  std::streambuf* e = std::cerr.rdbuf(nullptr);
  S s(b.problem);
  const double rmin = c.pick(std::vector<double>{1e-9, 0.25, 3});
  s.set_reg_min(rmin); s.set_reg_max(rmin + 1); s.set_termination_tolerance(1e300);
  if constexpr (D::prox) s.set_max_qp_iters(30);
  Traj xs, us; pb::guess(p, 1, 0, xs, us, 1);
  const int r = s.solve(xs, us, 1, false, pb::NANV);
  c.check(r == 1, "tolerance-without-effect", mc::cat("returned ", r, " KKT ", s.get_KKT()));
  c.check(s.get_preg() == rmin, "reg_min-without-effect", mc::cat(s.get_preg()));
  s.set_termination_tolerance(-1); s.set_alphas({0.5});
  if constexpr (!D::ddp) { s.set_use_filter_line_search(true); s.set_filter_size(0); }
  s.solve(xs, us, 1, false, pb::NANV);
  if (!D::ddp && !D::fddp) c.check(s.get_steplength() == 0.5, "alphas-without-effect", mc::cat(s.get_steplength()));
  if (before) { s.set_alphas({1}); s.solve(xs, us, 2, false, pb::NANV); }
  bool thrown = false;
  const Traj x0 = s.get_xs(), u0 = s.get_us();
  try { s.tryStep(a); } catch (std::exception&) { thrown = true; }
  const bool want = a >= 0 && a <= 1;
  c.check(thrown == !want, want ? "valid-step-rejected" : "invalid-step-accepted", "");
  c.check(maxabs(x0, s.get_xs()) == 0 && maxabs(u0, s.get_us()) == 0, "iterate-changed", "");
  std::cerr.rdbuf(e);
  c.traces++; c.transition(); if (!want) c.nontrivial++; c.state(mc::mix(mc::hdbl(a), uint64_t(sh.T)));
  c.stat(want ? "valid step" : "invalid step");
  c.sample(c.cfg);
}
static void body(mc::Ctx& c) {
  switch (c.choose(11)) {
    case 0: construction(c); break;
    case 1: setters<SolverSQP>(c); break; case 2: setters<SolverCSQP>(c); break; case 3: setters<SolverPROXQP>(c); break; case 4: setters<SolverDDP>(c); break; case 5: setters<SolverFDDP>(c); break;
    case 6: effects<SolverSQP>(c); break; case 7: effects<SolverCSQP>(c); break; case 8: effects<SolverPROXQP>(c); break; case 9: effects<SolverDDP>(c); break; default: effects<SolverFDDP>(c); break;
  }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C16",
    "exhaustive enumeration of constructions and of sequences of setter calls; a small model of the options is driven by the same calls and compared with every getter of the real solver after each of them",
    "construction: T<=3, every placement of 0..2 native equality rows over all nodes, 3 row and 3 control patterns; setters: 5 solvers, all options, all sequences of 1 or 2 calls over a boundary alphabet of 9 values and 18 step-length lists; trial steps: 11 values",
    "T<=4, sequences of 3 calls", {"NaN is not passed to setters"}}, body);
}
