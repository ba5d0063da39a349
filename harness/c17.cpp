// C17: memory safety.  Every public operation of every solver, in every order up to a depth and for every shape up to a
// bound, runs with address and undefined-behaviour instrumentation and with the size assertions of Eigen and libstdc++.
// Every execution is repeated with other contents in fresh heap and stack memory; a different outcome means that
// something was read before it was written.
#include "mc.hpp"
#include "mon.hpp"
#include "mim_solvers/kkt.hpp"
#include "mim_solvers/utils/callbacks.hpp"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
using namespace mon;
using mim_solvers::SolverKKT;

static unsigned char g_fill = 0;
static void on_malloc(const volatile void* p, size_t n) { if (p && n <= 65536) memset(const_cast<void*>(p), g_fill, n); }
static void on_free(const volatile void*) {}
__attribute__((noinline, no_sanitize("address"))) static void dirty_stack() { volatile unsigned char b[24576]; for (size_t i = 0; i < sizeof b; ++i) b[i] = g_fill; }

template <class S> struct Tr {
  static constexpr bool csqp = std::is_same<S, SolverCSQP>::value, prox = std::is_same<S, SolverPROXQP>::value, sqp = std::is_same<S, SolverSQP>::value, kkt = std::is_same<S, SolverKKT>::value;
  static constexpr bool con = csqp || prox, fddp = std::is_same<S, SolverFDDP>::value, ddp = std::is_same<S, SolverDDP>::value, ddpf = ddp || fddp;
  static constexpr bool ls = sqp || con || fddp;
  static const char* name() { return csqp ? "CSQP " : prox ? "PROXQP " : sqp ? "SQP " : fddp ? "FDDP " : ddp ? "DDP " : "KKT "; }
};
typedef std::vector<double> Log;
static void put(Log& l, double v) { l.push_back(v); }
static void put(Log& l, const pb::MatrixXd& m) { l.push_back(double(m.rows())); l.push_back(double(m.cols())); for (Eigen::Index i = 0; i < m.size(); ++i) l.push_back(m.data()[i]); }
static void put(Log& l, const pb::VectorXd& m) { l.push_back(double(m.size())); for (Eigen::Index i = 0; i < m.size(); ++i) l.push_back(m[i]); }
template <class V> static void puts_(Log& l, const V& v) { l.push_back(double(v.size())); for (auto& m : v) for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) l.push_back(m(i, j)); }
#define P(x) do { dirty_stack(); tag(#x, l); put(l, double(x)); } while (0)
static std::vector<std::pair<size_t, const char*>> g_tags;
static void tag(const char* n, Log& l) { g_tags.emplace_back(l.size(), n); }

struct Sink : std::streambuf { size_t n = 0; int overflow(int c) override { ++n; return c; } std::streamsize xsputn(const char*, std::streamsize k) override { n += size_t(k); return k; } };

template <class S> struct World {
  typedef Tr<S> D;
  pb::Shape s; pb::Prob p; pb::Built b; std::unique_ptr<S> o; Log l; int version = 0; bool stale = false;
  World(const pb::Shape& s_, const pb::Prob& p_) : s(s_), p(p_), b(pb::build(p_)) { dirty_stack(); o.reset(new S(b.problem)); }
  // dir: a direction was computed for the current sizes; dirty: a low-level operation ran without one, so that its results mean
  // nothing; sized: the trajectories were given since the sizes changed; tried: the last operation was a trial
  bool dir = false, dirty = false, sized = true, tried = false;
  void query() {
    S& k = *o;
    P(k.get_iter()); P(k.get_preg()); P(k.get_dreg()); P(k.get_steplength()); P(k.get_is_feasible()); P(k.get_th_stop());
    if constexpr (!D::kkt) {
      P(k.get_termination_tolerance()); P(k.get_reg_incfactor()); P(k.get_reg_decfactor()); P(k.get_reg_min()); P(k.get_reg_max()); P(k.get_th_grad()); P(k.get_th_stepdec()); P(k.get_th_stepinc());
      tag("alphas", l); for (double a : k.get_alphas()) l.push_back(a);
    }
    if constexpr (D::fddp) P(k.get_th_acceptnegstep());
    if constexpr (D::ls) { P(k.get_filter_size()); P(k.get_use_filter_line_search()); }
    if constexpr (D::sqp || D::con) P(k.get_mu_dynamic());
    if constexpr (D::sqp || D::csqp) P(k.get_extra_iteration_for_last_kkt());
    if constexpr (D::con) { P(k.get_mu_constraint()); P(k.get_max_qp_iters()); P(k.get_eps_abs()); P(k.get_eps_rel()); }
    if constexpr (D::csqp) { P(k.get_lag_mul_inf_norm_coef()); P(k.get_equality_qp_initial_guess()); P(k.get_rho_update_interval()); P(k.get_adaptive_rho_tolerance()); P(k.get_alpha()); P(k.get_sigma()); P(k.get_reset_y()); P(k.get_reset_rho()); P(k.get_rho_min()); P(k.get_rho_max()); P(k.get_max_solve_time()); P(k.get_max_solve_time_reached()); P(k.getQPCallbacks()); P(k.update_rho_with_heuristic_); P(k.remove_reg_); }
    if constexpr (D::kkt) { P(k.get_nx()); P(k.get_ndx()); P(k.get_nu()); }
    if (sized) { tag("xs", l); puts_(l, k.get_xs()); tag("us", l); puts_(l, k.get_us()); }
    if (dirty) return;
    P(k.get_cost()); P(k.get_stop()); P(k.get_dV()); P(k.get_dVexp()); P(k.get_ffeas()); P(k.get_KKT());
    if constexpr (D::sqp || D::con) { P(k.get_merit()); P(k.get_gap_norm()); P(k.get_xgrad_norm()); P(k.get_ugrad_norm()); }
    if constexpr (D::con) { P(k.get_constraint_norm()); P(k.get_qp_iters()); P(k.get_norm_primal()); P(k.get_norm_dual()); }
    if constexpr (D::csqp) { P(k.get_norm_primal_tolerance()); P(k.get_norm_dual_tolerance()); P(k.norm_primal_rel_); P(k.norm_dual_rel_); P(k.get_rho_sparse()); }
    if (!dir) return;
    tag("fs", l); puts_(l, k.get_fs());
    if constexpr (D::kkt) { tag("kkt", l); put(l, k.get_kkt()); tag("kktref", l); put(l, k.get_kktref()); tag("primaldual", l); put(l, k.get_primaldual()); tag("dxs", l); puts_(l, k.get_dxs()); puts_(l, k.get_dus()); puts_(l, k.get_lambdas()); }
    else if constexpr (!D::prox) {
      tag("Vxx", l); puts_(l, k.get_Vxx()); tag("Vx", l); puts_(l, k.get_Vx()); tag("Qxx", l); puts_(l, k.get_Qxx());
      tag("Qxu", l); puts_(l, k.get_Qxu()); tag("Quu", l); puts_(l, k.get_Quu()); tag("Qx", l); puts_(l, k.get_Qx()); tag("Qu", l); puts_(l, k.get_Qu()); tag("K", l); puts_(l, k.get_K()); tag("k", l); puts_(l, k.get_k());
    }
    if constexpr (D::sqp || D::con) {
      if (tried) { tag("xs_try", l); puts_(l, k.get_xs_try()); tag("us_try", l); puts_(l, k.get_us_try()); }
      tag("dx", l); puts_(l, k.get_dx()); tag("du", l); puts_(l, k.get_du()); tag("lag_mul", l); puts_(l, k.lag_mul_);
    }
    if constexpr (D::con) { tag("y", l); puts_(l, k.get_y()); }
    if constexpr (D::csqp) { tag("dx_tilde", l); puts_(l, k.get_dx_tilde()); tag("du_tilde", l); puts_(l, k.get_du_tilde()); tag("z", l); puts_(l, k.get_z()); tag("rho_vec", l); puts_(l, k.get_rho_vec()); }
    if constexpr (D::prox) { tag("P", l); put(l, k.get_P()); tag("A", l); put(l, k.get_A()); tag("C", l); put(l, k.get_C()); tag("q", l); put(l, k.get_q()); tag("b", l); put(l, k.get_b()); tag("l", l); put(l, k.get_l()); tag("u", l); put(l, k.get_u()); }
  }
  std::shared_ptr<pb::Model> model(const pb::Node& n, int t) { return std::make_shared<pb::Model>(b.state, n, t, p.circle); }
  pb::Node other(int t, int m, int ng) {
    pb::Shape q = s; q.variant = 5 + 3 * version++;
    if (t < s.T) q.m[size_t(t)] = m;
    q.rows[size_t(t)].assign(size_t(ng), pb::TWO);
    return pb::make(q).node(t);
  }
  void place(int t, int m, int ng) {
    const pb::Node n = other(t, m, ng); auto md = model(n, t); b.models[size_t(t)] = md;
    s.rows[size_t(t)].assign(size_t(ng), pb::TWO);
    if (t == s.T) { p.term = n; b.problem->set_terminalModel(md); } else { p.run[size_t(t)] = n; s.m[size_t(t)] = m; b.problem->updateModel(size_t(t), md); }
    stale = true;
  }
  void shift(int m, int ng) {
    const pb::Node n = other(s.T - 1, m, ng); auto md = model(n, s.T - 1);
    for (int t = 0; t + 1 < s.T; ++t) { const size_t i = size_t(t); b.models[i] = b.models[i + 1]; p.run[i] = p.run[i + 1]; s.m[i] = s.m[i + 1]; s.rows[i] = s.rows[i + 1]; }
    const size_t e = size_t(s.T) - 1; b.models[e] = md; p.run[e] = n; s.m[e] = m; s.rows[e].assign(size_t(ng), pb::TWO);
    b.problem->circularAppend(std::static_pointer_cast<crocoddyl::ActionModelAbstract>(md)); stale = true;
  }
};

enum Op { SOLVE_DEFAULT, SOLVE, SOLVE_ZERO, SOLVE_LONG, SOLVE_OPEN, CANDIDATE, CANDIDATE_FEAS, CANDIDATE_NONE, DIRECTION, DIRECTION_STALE, TRY, CHECKS, SHORT_XS, LONG_US, WRONG_X, WRONG_U, SET_XS, SET_US, FILTER0, FILTER3, ALPHAS, LINESEARCH, NU0, NU2, NG0, NG2, TERM0, TERM2, SHIFT, RESIZE, CALC, PARTS, CALLBACKS, NO_CALLBACKS, OPT_A, OPT_B, OPT_C, REG, BOUNDS, N_OP };
static const char* OPN[] = {"solve()", "solve(guess,2)", "solve(guess,0)", "solve(guess,6)", "solve(open)", "setCandidate", "setCandidate(feasible)", "setCandidate()", "computeDirection(true)", "computeDirection(false)", "tryStep", "checks", "xs-too-short", "us-too-long", "wrong-x", "wrong-u", "set_xs", "set_us", "filter0", "filter3", "alphas", "line-search", "nu=0", "nu=2", "ng=0", "ng=2", "terminal-ng=0", "terminal-ng=2", "shift", "resizeData", "calc", "parts", "callbacks", "no-callbacks", "options-a", "options-b", "options-c", "reg", "bounds"};

// false if the operation does not exist for this solver
template <class S> static bool apply(World<S>& w, int op) {
  typedef Tr<S> D;
  S& k = *w.o; const int T = w.s.T; Traj xs, us;
  // the sizes of a problem that was given other models are taken over by solve() and by resizeData()
  const bool low = op == DIRECTION || op == DIRECTION_STALE || op == TRY || op == CHECKS || op == CALC || op == PARTS || (op >= CANDIDATE && op <= CANDIDATE_NONE) || (op >= SHORT_XS && op <= SET_US);
  if (low && w.stale) return false;
  auto guess = [&](int kind) { pb::guess(w.p, kind, 0, xs, us, 0.6); };
  dirty_stack();
  w.l.push_back(-1000 - op);
  bool threw = false, must = false;
  w.tried = false;
  if (op == SOLVE_DEFAULT || op == SOLVE || op == SOLVE_ZERO || op == SOLVE_LONG || op == SOLVE_OPEN || (op >= CANDIDATE && op <= CANDIDATE_NONE)) w.sized = true;
  if (op == SOLVE_DEFAULT || op == SOLVE || op == SOLVE_LONG || op == SOLVE_OPEN || op == DIRECTION) { w.dir = true; w.dirty = false; }
  if (op == DIRECTION_STALE || op == CALC || op == PARTS || ((op == TRY || op == CHECKS) && !w.dir)) { w.dirty = true; w.dir = false; }
  if (op == TRY && w.dir) w.tried = true;
  if (op == SOLVE_ZERO || op == RESIZE) { if (w.stale) w.dir = false; }
  if (op == RESIZE && w.stale) w.sized = false;
  if (op == NU0 || op == NU2 || op == NG0 || op == NG2 || op == TERM0 || op == TERM2 || op == SHIFT) { w.dir = false; w.sized = false; }
  try {
    switch (op) {
      case SOLVE_DEFAULT: w.stale = false; put(w.l, k.solve()); break;
      case SOLVE: guess(0); w.stale = false; put(w.l, k.solve(xs, us, 2)); break;
      case SOLVE_ZERO: guess(2); w.stale = false; put(w.l, k.solve(xs, us, 0)); break;
      case SOLVE_LONG: guess(2); w.stale = false; put(w.l, k.solve(xs, us, 6, true)); break;
      case SOLVE_OPEN: guess(1); w.stale = false; put(w.l, k.solve(xs, us, 3, false, 1e-3)); break;
      case CANDIDATE: guess(1); k.setCandidate(xs, us, false); break;
      case CANDIDATE_FEAS: guess(2); k.setCandidate(xs, us, true); break;
      case CANDIDATE_NONE: k.setCandidate(); break;
      case DIRECTION: k.computeDirection(true); break;
      case DIRECTION_STALE: k.computeDirection(false); break;
      case TRY: { const double a = k.tryStep(0.5), b = k.tryStep(1); if (w.dir) { put(w.l, a); put(w.l, b); } break; }
      case CHECKS: { const double st = k.stoppingCriteria(); const VectorXd ei = k.expectedImprovement(); if (w.dir) { put(w.l, st); put(w.l, ei); } }
        if constexpr (!D::kkt) k.checkKKTConditions();
        k.computeDynamicFeasibility(); k.computeInequalityFeasibility(); k.computeEqualityFeasibility(); break;
      case SHORT_XS: guess(0); xs.pop_back(); must = true; k.solve(xs, us, 2); break;
      case LONG_US: guess(0); us.push_back(us[0]); must = true; k.solve(xs, us, 2); break;
      case WRONG_X: guess(0); xs[size_t(T)].conservativeResize(xs[size_t(T)].size() + 1); xs.back().tail(1).setZero(); must = true; k.solve(xs, us, 2); break;
      case WRONG_U: guess(0); us[size_t(T) - 1] = VectorXd::Zero(us[size_t(T) - 1].size() + 1); must = true; k.solve(xs, us, 2); break;
      case SET_XS: guess(1); k.set_xs(xs); xs.pop_back(); must = true; k.set_xs(xs); break;
      case SET_US: guess(1); k.set_us(us); us[0] = VectorXd::Zero(us[0].size() + 1); must = true; k.set_us(us); break;
      case FILTER0: case FILTER3: if constexpr (D::ls) k.set_filter_size(op == FILTER0 ? 0 : 3); else return false; break;
      case ALPHAS: if constexpr (!D::kkt) k.set_alphas({1, 0.25}); else return false; break;
      case LINESEARCH: if constexpr (D::ls) k.set_use_filter_line_search(false); else return false; break;
      case NU0: case NU2: { const int t = T - 1; w.place(t, op == NU0 ? 0 : 2, int(w.s.rows[size_t(t)].size())); break; }
      case NG0: case NG2: if (!D::con) return false; w.place(0, w.s.m[0], op == NG0 ? 0 : 2); break;
      case TERM0: case TERM2: if (!D::con && op == TERM0) return false; w.place(T, 0, !D::con ? 0 : op == TERM0 ? 0 : 2); break;
      case SHIFT: w.shift(3 - std::max(1, w.s.m.back()), D::con ? 2 - int(w.s.rows[size_t(T) - 1].size()) % 3 : 0); break;
      case RESIZE: k.resizeData(); w.stale = false; break;
      case CALC:
        if constexpr (D::csqp || D::prox) k.calc(true); else if constexpr (D::ddpf || D::sqp) put(w.l, k.calcDiff()); else return false;
        break;
      case PARTS:
        if constexpr (D::csqp) { k.reset_params(); k.reset_rho_vec(); k.backwardPass_without_constraints(); k.forwardPass_without_constraints(); k.backwardPass(); k.forwardPass(); k.backwardPass_without_rho_update(); k.forwardPass(); k.update_lagrangian_parameters(1); k.update_rho_vec(1); k.apply_rho_update(0.5); k.printQPCallbacks(3); k.updateMerit(); }
        else if constexpr (D::prox) k.printCallbacks();
        else if constexpr (D::ddpf) { k.backwardPass(); k.forwardPass(0.5); if constexpr (D::fddp) k.updateExpectedImprovement(); }
        else if constexpr (D::sqp) { k.backwardPass(); k.forwardPass(1); }
        else return false;
        break;
      case CALLBACKS:
        if constexpr (D::kkt) return false; else if constexpr (D::prox) k.setCallbacks(true); else { k.setCallbacks({std::make_shared<mim_solvers::CallbackVerbose>()}); if constexpr (D::csqp) k.setQPCallbacks(true); }
        break;
      case NO_CALLBACKS:
        if constexpr (D::kkt) return false; else if constexpr (D::prox) k.setCallbacks(false); else { k.setCallbacks({}); if constexpr (D::csqp) k.setQPCallbacks(false); }
        break;
      case OPT_A:
        if constexpr (D::csqp) { k.set_rho_update_interval(1); k.set_max_qp_iters(0); k.reset_y_ = true; k.set_extra_iteration_for_last_kkt(true); k.set_mu_dynamic(-1); k.set_mu_constraint(-1); }
        else if constexpr (D::prox) { k.set_max_qp_iters(1); } else if constexpr (D::sqp) { k.set_extra_iteration_for_last_kkt(true); k.set_termination_tolerance(0); }
        else return false;
        break;
      case OPT_B:
        if constexpr (D::csqp) { k.set_max_qp_iters(1); k.set_equality_qp_initial_guess(false); k.reset_rho_ = true; k.update_rho_with_heuristic_ = true; k.remove_reg_ = true; k.set_rho_update_interval(2); }
        else if constexpr (!D::kkt) { k.set_termination_tolerance(1e3); }
        else return false;
        break;
      case OPT_C:
        if constexpr (D::csqp) { k.set_rho_update_interval(0); }
        else if constexpr (!D::kkt) { k.set_reg_min(0.5); k.set_reg_max(4); }
        else return false;
        break;
      case REG: k.set_preg(0.1); k.set_dreg(0.1); break;
      case BOUNDS: { if (!D::con) return false; for (int t = 0; t <= T; ++t) { auto& m = w.b.models[size_t(t)]; if (m->nd.ng()) { m->nd.lb.setConstant(-pb::INF); m->nd.ub[0] = m->nd.ub[0] + 0.5; m->set_g_lb(m->nd.lb); m->set_g_ub(m->nd.ub); } } break; }
      default: return false;
    }
  } catch (std::exception& e) { threw = true; }
  w.l.push_back(threw);
  if (must && !threw) w.l.push_back(-777);
  w.query();
  return true;
}

template <class S> static bool once(const pb::Shape& s, const pb::Prob& p, const std::vector<int>& ops, unsigned char fill, Log& out) {
  g_fill = fill; g_tags.clear();
  Sink sink; std::streambuf* a = std::cout.rdbuf(&sink); std::streambuf* e = std::cerr.rdbuf(&sink);
  bool ok = true;
  {
    World<S> w(s, p); w.query();
    for (int op : ops) if (!apply(w, op)) { ok = false; break; }
    if (ok) { w.l.push_back(double(sink.n)); }
    out = w.l;
  }
  std::cout.rdbuf(a); std::cerr.rdbuf(e); g_fill = 0;
  return ok;
}
template <class S> static void compare_fills(mc::Ctx& c, const pb::Shape& s, const pb::Prob& p, const std::vector<int>& ops) {
  c.note();
  Log a, b;
  const bool ok = once<S>(s, p, ops, 0x00, a);
  if (!ok) return;
  once<S>(s, p, ops, 0xFF, b);
  c.traces++; c.transition(ops.size()); c.nontrivial++;
  if (a.size() != b.size()) { c.check(false, mc::cat("depends-on-uninitialised-memory ", Tr<S>::name()), mc::cat("lengths ", a.size(), " ", b.size())); return; }
  size_t at = a.size();
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) { at = i; break; }
  const char* nm = "?"; for (auto& t : g_tags) if (t.first <= at) nm = t.second;
  c.check(at == a.size(), mc::cat("depends-on-uninitialised-memory ", Tr<S>::name(), nm), at < a.size() ? mc::cat("entry ", at, " is ", a[at], " or ", b[at]) : "");
  bool bad = false; for (double v : a) bad = bad || v == -777;
  c.check(!bad, "wrong-size-accepted", "");
  uint64_t h = 0; for (double v : a) h = mc::mix(h, mc::hdbl(v)); c.state(h);
  c.stat(mc::cat("solver ", Tr<S>::name())); for (int op : ops) c.stat(mc::cat("op ", OPN[op]));
  c.sample(c.cfg);
}

// every shape, with a canonical history
template <class S> static void shapes(mc::Ctx& c) {
  typedef Tr<S> D; const bool th = c.thorough;
  pb::Shape s; s.T = 1 + c.choose(th ? 4 : 3); s.n = 1 + c.choose(2);
  s.circle = c.flag();
  for (int t = 0; t < s.T; ++t) s.m.push_back(c.choose(3));
  c.shard();
  const bool allng = s.T <= (th ? 3 : 2);
  const int pat = D::con && !allng ? c.choose(5) : 0;
  for (int t = 0; t <= s.T; ++t) { const int g = !D::con ? 0 : allng ? c.choose(3) : (pat == 0 ? t % 3 : pat == 1 ? (t + 1) % 3 : pat == 2 ? 2 - t % 3 : pat == 3 ? (t == s.T) * 2 : t < s.T); s.rows.push_back(g == 0 ? std::vector<int>{} : g == 1 ? std::vector<int>{pb::UPPER} : std::vector<int>{pb::EQUAL, pb::TWO}); }
  s.nlf = 0.4; s.nlx = 0.5; s.nlu = 0.2; s.dev = 0.3;
  const pb::Prob p = pb::make(s);
  static const std::vector<std::vector<int>> H = {{SOLVE_OPEN, CHECKS, SOLVE_LONG}, {SOLVE_ZERO, DIRECTION, TRY, SOLVE_DEFAULT}};
  const int h = th ? c.choose(int(H.size())) : 0;
  c.cfg = mc::cat("shapes ", D::name(), s.str(), " history ", h);
  compare_fills<S>(c, s, p, H[size_t(h)]);
}
// every sequence of operations
template <class S> static void sequences(mc::Ctx& c) {
  typedef Tr<S> D; const bool th = c.thorough;
  pb::Shape s; const int shp = c.choose(2);
  s.T = shp ? 2 : 1; s.n = shp ? 2 : 1; s.m = shp ? std::vector<int>{2, 1} : std::vector<int>{1};
  s.circle = shp;
  s.rows.assign(size_t(s.T) + 1, {}); if (D::con) { s.rows[0] = {pb::UPPER}; s.rows[size_t(s.T)] = {pb::TWO, pb::EQUAL}; }
  s.nlf = 0.4; s.nlx = 0.5; s.nlu = 0.2; s.dev = 0.3;
  const pb::Prob p = pb::make(s);
  const int len = th ? 3 : 2;
  std::vector<int> ops{c.choose(N_OP)};
  c.shard();
  for (int i = 1; i < len; ++i) ops.push_back(c.choose(N_OP));
  static const int LAST[] = {SOLVE, DIRECTION};
  if (!th) { ops.push_back(SOLVE); } else if (len == 3) ops.push_back(LAST[0]);
  std::ostringstream o; for (int x : ops) o << OPN[x] << " ";
  c.cfg = mc::cat("sequence ", D::name(), s.str(), ": ", o.str());
  compare_fills<S>(c, s, p, ops);
}
template <class S> static void both(mc::Ctx& c) { if (c.choose(2) == 0) shapes<S>(c); else sequences<S>(c); }
static void body(mc::Ctx& c) {
  switch (c.choose(6)) {
    case 0: both<SolverSQP>(c); break;
    case 1: both<SolverCSQP>(c); break;
    case 2: both<SolverDDP>(c); break;
    case 3: both<SolverFDDP>(c); break;
    case 4: both<SolverKKT>(c); break;
    default: both<SolverPROXQP>(c); break;
  }
}
int main(int a, char** v) {
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  return mc::main_check(a, v, {"C17",
    "exhaustive enumeration of problem shapes and of sequences of public operations; each one is executed on the real code under AddressSanitizer, UndefinedBehaviorSanitizer and the size assertions of Eigen and libstdc++, twice with different contents of fresh memory, and everything the solver shows is compared",
    "6 solvers; every pattern of nu in {0,1,2} and (constrained solvers, T<=2) ng in {0,1,2} for T<=3, nx<=2, also on a manifold with nx != ndx; every sequence of 2 out of 39 operations followed by a solve, on 2 problems",
    "T<=4 (all ng patterns for T<=3), 2 histories per shape; every sequence of 3 operations followed by a solve",
    {"after a model of other dimensions is put into the problem, solve() or resizeData() comes before the low-level operations", "models keep to their own declared sizes"}}, body);
}
