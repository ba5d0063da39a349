// C10: regularisation stays in bounds and follows the step-length policy.
#include "mc.hpp"
#include "adv.hpp"
using namespace adv;

static bool same(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }

// The regularisation machine of the property.
struct Machine {
  double reg, rmin, rmax, inc, dec, tdec, tinc; bool csqp, removed;
  bool done = false;
  void up() { reg = std::min(reg * inc, rmax); if (reg >= rmax) done = true; }
  void down() { reg = std::max(reg / dec, rmin); }
  void step(double a) {
    if (removed) return;
    if (csqp) { if (a > tdec) down(); else up(); }
    else { if (a > tdec) down(); if (a <= tinc) up(); }
  }
};

enum Kind { K_SQP, K_CSQP, K_PROX, K_DDP, K_FDDP };

template <class S> static void run(mc::Ctx& c, Kind kind) {
  const bool th = c.thorough;
  const bool ddp = kind == K_DDP || kind == K_FDDP;
  const std::vector<double> alphas = c.pick(std::vector<std::vector<double>>{{1, 0.5, 0.25, 0.005}, {1}, {0.25, 0.1}});
  Machine m;
  m.csqp = kind == K_CSQP;
  const int bnd = c.choose(3);
  m.rmin = bnd == 1 ? 1e-3 : 1e-9; m.rmax = bnd == 1 ? 10 : bnd == 2 ? 1e3 : 1e9;
  const int fac = c.choose(2);
  m.inc = fac ? 2 : 10; m.dec = fac ? 3 : 10;
  const int thr = c.choose(th ? 3 : 2);
  m.tdec = thr == 0 ? 0.5 : thr == 1 ? 0.25 : 1; m.tinc = thr == 0 ? 0.01 : thr == 1 ? 0.25 : 0.25;
  const double reginit = c.pick(std::vector<double>{pb::NANV, 0.05, bnd == 0 ? 1e3 : m.rmax, m.rmin / 4});
  m.removed = false;
  bool extra = false, filter = true;
  if (kind == K_CSQP) m.removed = c.flag();
  if (kind == K_CSQP || kind == K_SQP) extra = c.flag();
  if (th && !ddp) filter = c.flag();
  if (m.removed && (bnd || fac)) return;
  const bool second = c.flag();  // a second solve starts afresh
  c.shard();
  m.reg = std::isnan(reginit) ? m.rmin : reginit;
  if (m.removed) m.reg = 0;
  const double start = m.reg;
  c.cfg = mc::cat("solver#", int(kind), " alphas#", alphas.size(), " reg [", m.rmin, ",", m.rmax, "] x", m.inc, " /", m.dec, " th ", m.tdec, ",", m.tinc, " init ", reginit, " removed ", m.removed, " extra ", extra, " filter ", filter, " second ", second);

  std::unique_ptr<Rig<SolverSQP>> r1; std::unique_ptr<Rig<SolverCSQP>> r2; std::unique_ptr<Rig<SolverPROXQP>> r3;
  Env own; Prob p = base_problem(false); pb::Built b;
  Env* e = nullptr; S* sol = nullptr; std::unique_ptr<S> mine;
  if constexpr (std::is_same<S, SolverSQP>::value) { r1.reset(new Rig<SolverSQP>()); e = &r1->env; sol = r1->sol.get(); }
  else if constexpr (std::is_same<S, SolverCSQP>::value) { r2.reset(new Rig<SolverCSQP>()); e = &r2->env; sol = r2->sol.get(); }
  else if constexpr (std::is_same<S, SolverPROXQP>::value) { r3.reset(new Rig<SolverPROXQP>()); e = &r3->env; sol = r3->sol.get(); }
  else {
    b = pb::build(p, &own);
    std::streambuf* o = std::cerr.rdbuf(nullptr); mine.reset(new S(b.problem)); std::cerr.rdbuf(o);
    sol = mine.get(); e = &own;
    own.cur_dx = [] { return 0.0; }; own.cur_du = [] { return 0.0; };
    own.snapshot = [sol](It& i) { i.preg = sol->get_preg(); i.dreg = sol->get_dreg(); };
    sol->set_termination_tolerance(-1);
  }
  { std::streambuf* o = std::cerr.rdbuf(nullptr); sol->set_alphas(alphas); std::cerr.rdbuf(o); e->alphas = alphas; }
  sol->set_reg_min(m.rmin); sol->set_reg_max(m.rmax); sol->set_reg_incfactor(m.inc); sol->set_reg_decfactor(m.dec);
  sol->set_th_stepdec(m.tdec); sol->set_th_stepinc(m.tinc);
  if constexpr (std::is_same<S, SolverCSQP>::value) { sol->remove_reg_ = m.removed; sol->set_extra_iteration_for_last_kkt(extra); sol->set_use_filter_line_search(filter); }
  if constexpr (std::is_same<S, SolverSQP>::value) { sol->set_extra_iteration_for_last_kkt(extra); sol->set_use_filter_line_search(filter); }
  if constexpr (std::is_same<S, SolverPROXQP>::value) sol->set_use_filter_line_search(filter);
  if constexpr (std::is_same<S, SolverFDDP>::value) sol->set_use_filter_line_search(false);

  // curvature of an accepted point: positive, or negative so that the factorisation needs some regularisation
  const std::vector<double> LUU = {1, -0.04, -30};
  const int nl = kind == K_PROX || m.removed ? 1 : 3;
  int budget = 3; if (th) budget = 4;
  if (alphas.size() == 1) budget++;
  std::string hist;
  bool guess = true;
  e->answer = [&](int ord, double x1) {
    int a;
    if (guess) a = c.choose(nl);
    else if (budget > 0) { --budget; a = c.choose(nl + 1) - 1; }
    else a = 0;
    Pt q; q.fault = NONE; q.lu = -(1 + 0.0937 * ord); q.luu = a < 0 ? 1 : LUU[size_t(a)];
    q.X = x1 + 0.5; q.g = 0;
    q.cost = a < 0 ? pb::NANV : -1e7 * (ord + 1);
    if (guess) q.cost = 0;
    guess = false;
    hist += mc::cat(" p", ord, ":", a < 0 ? std::string("rejected") : mc::cat("luu=", q.luu));
    c.transition();
    return q;
  };
  const size_t N = 3;
  for (int pass = 0; pass < (second ? 2 : 1); ++pass) {
    hist += " |";
    if (pass) { budget = std::min(budget, 1); }
    guess = true;
    Machine k = m; k.reg = start;
    e->begin(pass * 1e6, 0);
    Traj xs{VectorXd::Zero(1), VectorXd::Zero(1)}, us{VectorXd::Constant(1, pass * 1e6)};
    bool ret = false;
    std::vector<double> at_cb;
    ret = sol->solve(xs, us, N, false, reginit);
    c.traces++;
    c.check(!ret, "returned-true", hist);
    // the machine, stepped by the observed iterates
    const std::vector<It>& its = e->its;
    double ucur = us[0][0];
    size_t it = 0; bool ended = false; size_t n_diff = 0;
    double luu = e->memo.at(Env::key(ucur)).luu;
    auto factor = [&]() {  // returns false when solve has to stop
      if (kind == K_PROX || k.removed) return true;
      while (luu + k.reg <= 0) { k.up(); c.stat("factorisation failures"); if (k.done) return false; }
      return true;
    };
    // DDP keeps its derivatives after a rejection, so iterates are followed by trial evaluation, not by derivatives
    bool moved = true;
    for (it = 0; it < N && !ended; ++it) {
      if (!ddp || moved) {
        if (!c.check(n_diff < its.size(), "missing-iteration", mc::cat("iteration ", it, hist))) return;
        if (!ddp && !c.check(Env::key(its[n_diff].u) == Env::key(ucur), "iterate-moved", hist)) return;
        ++n_diff;
      }
      if (!factor()) { ended = true; c.stat("ended at reg_max after a failed factorisation"); break; }
      const It& rec = its[n_diff - 1];
      if (!ddp || moved) {
        if (!c.check(rec.dir, "no-trial", mc::cat("iteration ", it, hist))) return;
        c.check(same(rec.preg, k.reg) && same(rec.dreg, k.reg), "wrong-regularisation", mc::cat("iteration ", it, ": expected ", k.reg, ", got ", rec.preg, " / ", rec.dreg, hist));
        if (start >= k.rmin && start <= k.rmax && !k.removed) c.check(rec.preg >= k.rmin * (1 - 1e-12) && rec.preg <= k.rmax, "out-of-bounds", mc::cat(rec.preg));
      }
      // which step was taken: the first finite trial
      double acc = 0, unew = ucur; const double du = ddp ? -rec.pt.lu / (rec.pt.luu + k.reg) : rec.du;
      for (double a : alphas) {
        double cand = ucur + a * du; const Pt* f = nullptr; double best = 1e-6 * (1 + std::fabs(cand));
        for (auto& kv : e->memo) { double u = double(kv.first) / 1048576.0; if (std::fabs(u - cand) <= best) { best = std::fabs(u - cand); f = &kv.second; unew = u; } }
        if (!c.check(f != nullptr, "trial-not-made", mc::cat("iteration ", it, " step ", a, " direction expected ", du, hist))) return;
        if (std::isfinite(f->cost)) { acc = a; luu = f->luu; break; }
      }
      moved = acc != 0;
      if (moved) ucur = unew;
      if (!moved) { c.nontrivial++; if (kind == K_CSQP) { ++it; break; } }
      const double eff = moved ? acc : alphas.back();
      c.stat(moved ? mc::cat("step ", acc) : std::string("all rejected"));
      k.step(eff);
      if (k.done && !k.removed && !(k.csqp ? eff > k.tdec : eff > k.tinc)) { ended = true; c.stat("ended at reg_max after a short step"); break; }
      k.done = false;
    }
    if (!ended && extra) {
      if (!c.check(n_diff < its.size(), "missing-extra-iteration", hist)) return;
      ++n_diff;
      factor();
    }
    if (!ddp) c.check(n_diff == its.size(), ended ? "continued-after-reg-max" : "too-many-iterations", mc::cat("expected ", n_diff, " linearisations, got ", its.size(), hist));
    c.check(same(sol->get_preg(), k.reg) && same(sol->get_dreg(), k.reg), "wrong-final-regularisation", mc::cat("expected ", k.reg, ", got ", sol->get_preg(), hist));
    const double fu = sol->get_us()[0][0];
    c.check(std::fabs(fu - ucur) <= 1e-5 * (1 + std::fabs(ucur)), "wrong-final-iterate", mc::cat("expected ", ucur, ", got ", fu, hist));
    if (ended) c.nontrivial++;
    c.state(mc::mix(mc::hdbl(k.reg), mc::mix(n_diff, ended)));
  }
  c.sample(c.cfg + hist);
}
static void body(mc::Ctx& c) {
  switch (c.choose(5)) {
    case 0: run<SolverSQP>(c, K_SQP); break;
    case 1: run<SolverCSQP>(c, K_CSQP); break;
    case 2: run<SolverPROXQP>(c, K_PROX); break;
    case 3: run<SolverDDP>(c, K_DDP); break;
    default: run<SolverFDDP>(c, K_FDDP); break;
  }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C10",
    "stateless exploration of the real solvers against an adversarial environment that decides, point by point, whether a trial is rejected and which curvature (factorisable or not) an accepted point has; the regularisation at every iteration and at the end is compared with the state machine of the property",
    "5 solvers, 3 step-length lists, 3 bound pairs, 2 factor pairs, 2 threshold pairs, 4 initial values (default, inside, at reg_max, below reg_min), remove_reg, extra iteration, second solve; 3-4 free points with 4 outcomes each, 3 iterations",
    "as quick with 3 threshold pairs, filter and merit, and one more free point",
    {"regularisation factor > 1 and regularisation > 0 (with 0 the factorisation retry of the documented policy cannot make progress)"}}, body);
}
