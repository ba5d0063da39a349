// C13: a solve depends only on the problem, the guess and the options, not on the history of the solver object.
#include "mc.hpp"
#include "hist.hpp"

enum Op { O_SOLVE, O_CONVERGE, O_ZERO, O_CB, O_EXC, O_EXCDIFF, O_NANTRIALS, O_NANDIFF, O_REG, O_FILTER, O_LS, O_BUDGET, O_REGOPT, O_EQG, O_STEP, O_EMPTY, O_INDEF, O_SAME, O_NANGUESS, O_ABORT_EXTRA, O_REJECT, O_CLAIM, O_N };
static const char* OPN[] = {"solve", "converge", "maxiter0", "callback-throws", "model-throws", "derivative-throws", "nan-trials", "nan-derivative", "reg-max", "filter5", "merit", "qp2", "regopts", "eqguess", "manual-step", "empty-guess", "indefinite", "same-options", "nan-guess", "throw-late", "all-trials-rejected", "claimed-feasible"};

template <class S> static void apply(Rig<S>& k, int op, const Opt& base, const pb::Prob& p, int var) {
  Traj xs, us; pb::guess(p, 1, var, xs, us, 1.3);
  Opt o = base;
  long n = 0;
  switch (op) {
    case O_SOLVE: k.solve(xs, us, 3); break;
    case O_CONVERGE: k.solve(xs, us, 40); break;
    case O_ZERO: if constexpr (Tr<S>::extra) k.s->set_extra_iteration_for_last_kkt(!base.extra); k.solve(xs, us, 0); break;
    case O_CB: k.cb_throw = 1; k.solve(xs, us, 4); k.cb_throw = -1; break;
    case O_EXC: k.f.calc = [&](int t, crocoddyl::ActionDataAbstract&) { if (++n > 2 * (p.T() + 1) && t == p.T()) throw std::runtime_error("m"); }; k.solve(xs, us, 4); break;
    case O_EXCDIFF: k.f.diff = [&](int t, crocoddyl::ActionDataAbstract&) { if (++n > p.T() + 1 && t == p.T()) throw std::runtime_error("m"); }; k.solve(xs, us, 4); break;
    case O_NANTRIALS: k.f.calc = [&](int, crocoddyl::ActionDataAbstract& d) { if (++n > 2 * (p.T() + 1)) d.cost = pb::NANV; }; k.solve(xs, us, 3); break;
    case O_NANDIFF: k.f.diff = [&](int t, crocoddyl::ActionDataAbstract& d) { if (++n > p.T() + 1 && t == p.T()) { d.Lx[0] = pb::NANV; } }; if constexpr (Tr<S>::prox) k.s->set_max_qp_iters(20); k.solve(xs, us, 3); break;
    case O_REG: k.solve(xs, us, 3, base.rmax); break;
    case O_FILTER: o.fs = 5; o.ls = 0; k.opts(o); k.solve(xs, us, 4); break;
    case O_LS: o.ls = base.ls == 1 ? 2 : 1; o.mu = 0.2; k.opts(o); k.solve(xs, us, 4); break;
    case O_BUDGET: o.qp = 2; o.interval = 1; o.rrho = !base.rrho; o.tol = 1e-2; k.opts(o); k.solve(xs, us, 4); break;
    case O_REGOPT: o.rmin = 1e-2; o.rmax = 10; o.inc = 2; o.dec = 3; o.alphas = {0.5, 0.1}; k.opts(o); k.solve(xs, us, 4); break;
    case O_EQG: o.eqg = !base.eqg; o.remove_reg = !base.remove_reg; k.opts(o); k.solve(xs, us, 3); break;
    case O_STEP:
      k.solve(xs, us, 1);
      try { k.s->computeDirection(true); k.s->tryStep(0.5); k.s->tryStep(1.0); } catch (std::exception&) {}
      break;
    case O_EMPTY: k.solve({}, {}, 2); break;
    case O_INDEF: k.f.diff = [&](int t, crocoddyl::ActionDataAbstract& d) { if (t < p.T() && d.Luu.rows()) d.Luu.diagonal().array() -= 50; }; o.rmax = 1e-3; o.remove_reg = false; k.opts(o); k.solve(xs, us, 3); break;
    case O_SAME: k.opts(base); break;
    case O_NANGUESS: us[0].size() ? (void)(us[0][0] = pb::NANV) : (void)(xs[1][0] = pb::NANV); if constexpr (Tr<S>::prox) k.s->set_max_qp_iters(20); k.solve(xs, us, 2); break;
    case O_ABORT_EXTRA: o.extra = true; k.opts(o); k.cb_throw = 2; k.solve(xs, us, 2); k.cb_throw = -1; break;
    case O_REJECT: k.f.calc = [&](int, crocoddyl::ActionDataAbstract& d) { if (++n > p.T() + 1) d.cost = pb::NANV; }; k.solve(xs, us, 3); break;
    case O_CLAIM: pb::guess(p, 2, var, xs, us, 1.3); k.solve(xs, us, 3, pb::NANV, true); break;
    default: break;
  }
  k.f.calc = nullptr; k.f.diff = nullptr;
  k.opts(base);
}

template <class S> static void run(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s;
  s.T = 1 + c.choose(th ? 3 : 2); s.n = 1 + c.choose(2);
  const int mpat = c.choose(2);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : 2 - t % 2);
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}, {pb::EQUAL}};
  const int rp = Tr<S>::con ? 1 + c.choose(2) : 0;
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[rp == 0 ? 0 : rp == 1 ? 1 : size_t(t == s.T ? 3 : 2)]);
  const int nl = 1 + c.choose(th ? 2 : 1);
  s.nlf = 0.6; s.nlx = 0.8; s.nlu = 0.3; s.nlg = Tr<S>::con ? 0.3 : 0; s.hs = 0.4;
  if (nl == 2) { s.nlf = 0.9; s.nlx = 1.6; s.hs = 0.3; }
  s.circle = s.n == 2;
  s.dev = 0.3;
  const pb::Prob p = pb::make(s);
  Opt o;
  if constexpr (!std::is_same<S, SolverDDP>::value) o.ls = c.choose(Tr<S>::csqp ? 3 : 2);
  if constexpr (Tr<S>::extra) o.extra = c.flag();
  if constexpr (Tr<S>::csqp) { const int v = c.choose(th ? 4 : 3); o.eqg = v != 1; o.rrho = v == 2; o.remove_reg = v == 3; }
  if (o.ls == 0 && Tr<S>::sqp) o.fs = c.flag() ? 3 : 1;
  const int gk = c.choose(4);
  const size_t N = c.pick(std::vector<size_t>{4, 0, 1});
  if (N == 0 && !o.extra) return;
  const bool claim = Tr<S>::ddpf && (gk == 1 || gk == 2) && c.flag();  // the guess is declared feasible, rightly (2) or not (1)
  const int len = 1 + c.choose(th ? 3 : 2);
  // the second and third operation of longer histories come from the operations that leave most behind
  std::vector<int> ops{c.choose(O_N)};
  static const std::vector<int> LEFT = {O_SOLVE, O_CB, O_NANTRIALS, O_FILTER, O_ZERO, O_REG, O_EMPTY, O_NANDIFF, O_REJECT};
  c.shard();
  for (int i = 1; i < len; ++i) ops.push_back(c.pick(LEFT));
  std::ostringstream h; for (int op : ops) h << OPN[op] << " ";
  c.cfg = mc::cat(Tr<S>::name(), s.str(), " ls", o.ls, " extra", o.extra, " eqg", o.eqg, " rrho", o.rrho, " nreg", o.remove_reg, " fs", o.fs, " guess", gk, claim ? " claimed feasible" : "", " N", N, " history: ", h.str());
  Traj xs, us;
  if (gk < 3) pb::guess(p, gk, 0, xs, us, 0.9);
  Rig<S> fresh(p); fresh.opts(o);
  const int r0 = fresh.solve(xs, us, N, pb::NANV, claim);
  const Log l0 = fresh.result(r0);
  Rig<S> old(p); old.opts(o);
  for (size_t i = 0; i < ops.size(); ++i) { apply(old, ops[i], o, p, int(7 + i)); c.transition(); }
  const int r1 = old.solve(xs, us, N, pb::NANV, claim);
  const Log l1 = old.result(r1);
  c.traces++; c.nontrivial++;
  const std::string d = diff(l0, l1);
  c.check(d.empty(), mc::cat("history-dependent ", Tr<S>::name(), d.substr(0, 9)), mc::cat(d, " (returned ", r0, " / ", r1, ")"));
  // an empty guess stands for zero states and controls
  if (gk == 3) {
    Traj zx(size_t(p.T()) + 1), zu; for (auto& x : zx) x = old.b.state->zero(); for (auto& n : p.run) zu.push_back(VectorXd::Zero(n.m));
    const int r2 = old.solve(zx, zu, N);
    const std::string d2 = diff(l0, old.result(r2));
    c.check(d2.empty(), "empty-guess", d2);
  }
  c.state(mc::mix(l1.empty() ? 0 : mc::hdbl(l1.back()), uint64_t(r1 + 2)));
  c.stat(r1 == 1 ? "converged" : r1 == 0 ? "not converged" : "exception");
  c.sample(c.cfg);
}
static void body(mc::Ctx& c) {
  switch (c.choose(5)) {
    case 0: run<SolverSQP>(c); break;
    case 1: run<SolverCSQP>(c); break;
    case 2: run<SolverPROXQP>(c); break;
    case 3: run<SolverDDP>(c); break;
    default: run<SolverFDDP>(c); break;
  }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C13",
    "stateless enumeration of operation histories on one solver object followed by a solve, whose complete log (return value, trajectory, every metric at every callback) has to equal, bit for bit, that of a new solver",
    "5 solvers, T<=2, nx<=2, 2 control and 2 row patterns, manifold; filter/merit/adaptive merit, extra iteration, QP warm-start options; histories of 1 or 2 operations out of 22 (solves, budgets, aborted and failing solves, options changed and restored, manual steps, empty and NaN guesses); 4 guesses, maxiter {0,1,4}",
    "T<=3, 2 nonlinearity levels, remove_reg, histories of up to 3 operations", {"SolverCSQP with reset_y set"}}, body);
}
