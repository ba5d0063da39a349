// C12: CSQP's time limit stops the solver at the first clock reading past it.
#include "mc.hpp"
#include "clock.hpp"
#include "mon.hpp"
using namespace mon;

struct Opt { int ls = 0; bool extra = false, eqg = true; int qp = 6; size_t interval = 2; double tol = 1e-7, reg = pb::NANV; bool resets = true, nreg = false; double indef = 0; };
struct Cb { Traj xs, us, dx, du; double kkt, q, preg; bool flag; size_t iter; };
struct Res { int ret = -9; bool flag = false; Traj xs, us; size_t iter = 0; std::vector<Cb> cbs; std::vector<rec::It> its; long reads = 0; std::vector<int> kind; std::vector<size_t> done; double q = 0; long lin_at_deadline = -1, cb_at_deadline = -1; Traj dx, du; };

struct Rig {
  rec::Recorder r; pb::Built b; SolverCSQP s; Res o; const pb::Prob& p;
  Rig(const pb::Prob& p_, const Opt& q) : b(pb::build(p_, &r)), s(b.problem), p(p_) {
    rec::attach(r, s);
    std::streambuf* e = std::cerr.rdbuf(nullptr); s.set_alphas({1, 0.5, 0.25}); std::cerr.rdbuf(e);
    s.set_use_filter_line_search(q.ls == 0); s.set_mu_dynamic(3); s.set_mu_constraint(5);
    s.set_extra_iteration_for_last_kkt(q.extra); s.set_equality_qp_initial_guess(q.eqg);
    s.set_max_qp_iters(q.qp); s.set_rho_update_interval(q.interval); s.set_eps_abs(1e-9); s.set_eps_rel(0); s.set_termination_tolerance(q.tol);
    s.reset_y_ = q.resets; s.reset_rho_ = q.resets; s.remove_reg_ = q.nreg;
    if (q.indef != 0) { const double v = q.indef; const int T = p.T(); r.dfault = [v, T](long, int t, crocoddyl::ActionDataAbstract& d, const VectorXd&, const VectorXd&) { if (t < T && d.Luu.rows()) d.Luu.diagonal().array() -= v; }; }
    s.setCallbacks({callback([this](crocoddyl::SolverAbstract&, const std::string&) {
      o.cbs.push_back(Cb{s.get_xs(), s.get_us(), s.get_dx(), s.get_du(), s.get_KKT(), s.get_qp_iters(), s.get_preg(), s.get_max_solve_time_reached(), s.get_iter()});
    })});
  }
  // the limit (1 second) elapses at reading `k`; before it the clock shows t0, afterwards t0 + jump
  Res go(const Traj& xs, const Traj& us, size_t N, double reg, long k, double jump, double t0) {
    o = Res(); r.start(p.T());
    const long base = clk::reads;
    clk::fn = [this, k, jump, t0, base](long i) {
      const long n = i - base;
      o.done.push_back(o.cbs.size());
      o.kind.push_back(n == 0 ? 0 : r.its.size() == o.cbs.size() ? 1 : 2);  // start, outer loop, QP loop
      if (n == k) { o.lin_at_deadline = long(r.its.size()); o.cb_at_deadline = long(o.cbs.size()); }
      return k >= 0 && n >= k ? t0 + jump : t0;
    };
    try { o.ret = s.solve(xs, us, N, false, reg); } catch (std::exception&) { o.ret = -1; }
    clk::fn = nullptr;
    o.reads = clk::reads - base; o.flag = s.get_max_solve_time_reached(); o.xs = s.get_xs(); o.us = s.get_us(); o.iter = s.get_iter(); o.its = r.its; o.q = s.get_qp_iters(); o.dx = s.get_dx(); o.du = s.get_du();
    return o;
  }
};
static std::string diff(const Res& a, const Res& b) {
  if (a.ret != b.ret) return mc::cat("return ", a.ret, " / ", b.ret);
  if (a.iter != b.iter) return mc::cat("iter ", a.iter, " / ", b.iter);
  if (a.cbs.size() != b.cbs.size()) return mc::cat("callbacks ", a.cbs.size(), " / ", b.cbs.size());
  if (maxabs(a.xs, b.xs) != 0 || maxabs(a.us, b.us) != 0) return "trajectory";
  for (size_t i = 0; i < a.cbs.size(); ++i) if (!(close(a.cbs[i].kkt, b.cbs[i].kkt, 0, 0) && a.cbs[i].q == b.cbs[i].q && maxabs(a.cbs[i].dx, b.cbs[i].dx) == 0)) return mc::cat("callback ", i);
  return "";
}
static void body(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s;
  s.T = 1 + c.choose(th ? 3 : 2); s.n = 1 + c.choose(2);
  const int mpat = th ? c.choose(2) : (s.T + s.n) % 2;
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : 2 - t % 2);
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}, {pb::EQUAL}};
  const int rp = c.choose(3);
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[rp == 0 ? 0 : rp == 1 ? 1 : size_t(t == s.T ? 3 : 2)]);
  s.nlf = 0.6; s.nlx = 0.8; s.nlu = 0.3; s.nlg = 0.3; s.hs = 0.4; s.dev = 0.3;
  if (c.flag()) { s.nlf = s.nlx = s.nlu = s.nlg = 0; s.hs = 1; }
  const pb::Prob p = pb::make(s);
  Opt q;
  q.ls = c.choose(2); q.extra = c.flag(); q.eqg = c.flag();
  q.resets = c.flag();
  q.tol = c.pick(std::vector<double>{-1, 1e-2});
  const int qv = c.choose(th ? 4 : 3);
  q.qp = qv == 0 ? 6 : qv == 1 ? 1 : qv == 2 ? 40 : 7; q.interval = qv == 0 ? 2 : qv == 1 ? 1 : qv == 2 ? 5 : 3;
  const int rg = c.choose(3);  // plain, failing factorisations, no regularisation
  if (rg == 1) q.indef = 3; if (rg == 2) q.nreg = true;
  if (!th && rg == 1 && (qv == 2 || q.eqg || q.tol > 0)) return;
  c.shard();
  const size_t N = c.pick(std::vector<size_t>{3, 1, 0});
  if (N == 0 && !q.extra) return;
  const double t0 = th ? c.pick(std::vector<double>{5, 0}) : 5;
  const std::string base = mc::cat(s.str(), " ls", q.ls, " extra", q.extra, " eqg", q.eqg, " resets", q.resets, " tol ", q.tol, " qp", q.qp, "/", q.interval, " indef", q.indef, " noreg", q.nreg, " N", N, " t0 ", t0);
  Traj xs, us; pb::guess(p, 1, 0, xs, us, 1.1);
  Rig ru(p, q);
  const Res U = ru.go(xs, us, N, pb::NANV, -1, 0, t0);  // no limit set, time stands still
  // every position of the deadline, before it the largest time below the limit and at it the limit itself or more
  const int k = c.choose(int(U.reads) + 1);
  const int how = th || k % 7 == 0 ? c.choose(3) : k % 3 ? 0 : 1;  // elapsed time exactly the limit; far beyond; just below it (never elapses)
  c.cfg = mc::cat(base, " deadline at reading ", k, how == 0 ? " exactly" : how == 1 ? " late" : " not quite");
  Rig rl(p, q);
  rl.s.set_max_solve_time(how == 1 && k == 0 ? 3 : 1);
  const Res L = rl.go(xs, us, N, pb::NANV, k, how == 0 ? 1 : how == 1 ? 1e6 : 1 - 1e-9, t0);
  c.traces++; c.transition(size_t(L.reads));
  // Each QP iteration has to be preceded by a reading, and so has each iteration of the outer loop
  if (k == 0) {
    size_t outer = 0; for (int x : U.kind) outer += x == 1;
    size_t mains = 0; for (size_t i = 0; i < U.cbs.size(); ++i) mains += U.cbs[i].iter < N && (i == 0 || U.cbs[i].iter != U.cbs[i - 1].iter);
    if (N && !q.indef) {
      c.check(outer >= mains, "outer-loop-without-reading", mc::cat(outer, " readings, ", mains, " iterations"));
      double qs = 0; for (auto& e : U.cbs) qs += e.q;
      size_t inner = 0; for (int x : U.kind) inner += x == 2;
      c.check(double(inner) >= qs, "QP-iteration-without-reading", mc::cat(inner, " readings, ", qs, " iterations"));
    }
  }
  const bool reached = k > 0 && k < L.reads && how != 2;
  c.check(L.flag == reached, "wrong-flag", mc::cat("flag ", L.flag, ", limit elapsed ", reached, " (", L.reads, " readings)"));
  if (!reached) {
    const std::string d = diff(U, L);
    c.check(d.empty(), "limit-without-effect-changes-the-solve", d);
    c.stat("limit not reached");
    // a deadline among the readings of the unlimited solve has to be noticed
    if (how != 2) c.check(k == 0 || k >= U.reads, "reading-lost", "");
  } else {
    c.nontrivial++;
    const long lin = L.lin_at_deadline, ncb = L.cb_at_deadline;
    c.check(long(L.its.size()) == lin, "new-iteration-after-the-limit", mc::cat(L.its.size(), " linearisations, ", lin, " at the deadline"));
    c.check(long(L.cbs.size()) <= ncb + 1, "callbacks-after-the-limit", "");
    const int kind = L.kind[size_t(k)];
    // up to the deadline the solve is the unlimited one
    for (long i = 0; i < ncb; ++i) c.check(maxabs(L.cbs[size_t(i)].xs, U.cbs[size_t(i)].xs) == 0 && L.cbs[size_t(i)].q == U.cbs[size_t(i)].q && close(L.cbs[size_t(i)].kkt, U.cbs[size_t(i)].kkt, 0, 0) && !L.cbs[size_t(i)].flag, "differs-before-the-limit", mc::cat("iteration ", i));
    c.check(maxabs({L.xs[0]}, {pb::Model::embed(p.x0, p.circle)}) == 0, "initial-state", "");
    if (kind == 1) {
      // at the top of iteration ncb: nothing more happens
      c.stat("deadline in the outer loop");
      c.check(L.ret == 0, "returned-true", "");
      c.check(long(L.cbs.size()) == ncb, "callback-after-the-limit", "");
      const Traj &ex = ncb < long(U.its.size()) ? U.its[size_t(ncb)].xs : U.xs, &eu = ncb < long(U.its.size()) ? U.its[size_t(ncb)].us : U.us;
      c.check(maxabs(L.xs, ex) == 0 && maxabs(L.us, eu) == 0, "not-the-current-iterate", "");
    } else {
      // in the QP loop of iteration ncb, after m QP iterations
      long m = 0; for (long i = k - 1; i > 0 && L.kind[size_t(i)] == 2 && L.done[size_t(i)] == size_t(ncb); --i) ++m;
      const bool extra = size_t(ncb) < U.cbs.size() && (U.cbs[size_t(ncb)].iter >= N || (ncb > 0 && U.cbs[size_t(ncb)].iter == U.cbs[size_t(ncb) - 1].iter));
      if (q.indef != 0) { c.stat("deadline in a QP loop with failing factorisations"); c.check(L.q <= double(m), "QP-iterations-after-the-limit", mc::cat(L.q, " > ", m)); }
      else {
        c.stat(m == 0 ? "deadline before the first QP iteration" : "deadline inside a QP");
        c.check(L.q == double(m), "QP-iterations-after-the-limit", mc::cat("reported ", L.q, ", completed before the deadline ", m));
        if (m == 0 && !extra) {
          c.check(L.ret == 0 && long(L.cbs.size()) == ncb, "continued-without-a-direction", mc::cat("returned ", L.ret));
          if (size_t(ncb) < U.its.size() && N) c.check(maxabs(L.xs, U.its[size_t(ncb)].xs) == 0 && maxabs(L.us, U.its[size_t(ncb)].us) == 0, "not-the-current-iterate", "");
        } else if (c.check(long(L.cbs.size()) == ncb + 1, "callback-missing", "")) {
          const Cb& e = L.cbs.back();
          c.check(e.flag, "flag-not-shown", "");
          // the direction is the one of a solver that is allowed m QP iterations
          if (q.resets && m > 0) {
            Opt w = q; w.qp = int(m); w.extra = false;
            Rig ref(p, w);
            const Res R = ref.go(e.xs, e.us, 1, q.nreg ? pb::NANV : e.preg, -1, 0, t0);
            if (c.check(R.cbs.size() == 1, "no-reference", "")) {
              c.check(maxabs(R.cbs[0].dx, e.dx) == 0 && maxabs(R.cbs[0].du, e.du) == 0 && close(R.cbs[0].kkt, e.kkt, 0, 0), "direction-is-not-that-of-a-shorter-QP", mc::cat("m ", m, " KKT ", e.kkt, " / ", R.cbs[0].kkt));
              c.check((e.kkt <= q.tol) == (L.ret == 1), "verdict", mc::cat(e.kkt));
              if (!extra) c.check(maxabs(R.xs, L.xs) == 0 && maxabs(R.us, L.us) == 0, "trajectory-is-not-an-iterate", "");
              else c.check(maxabs(e.xs, L.xs) == 0 && maxabs(e.us, L.us) == 0, "moved-in-the-extra-iteration", "");
            }
          }
        }
      }
    }
    // the trajectory is an iterate or a trial of the last direction
    if (!L.its.empty()) {
      const rec::It& li = L.its.back();
      bool legit = maxabs(L.xs, li.xs) == 0 && maxabs(L.us, li.us) == 0;
      if (!legit && !L.cbs.empty() && (L.cbs.size() > size_t(ncb) || kind == 1)) for (double a : {1.0, 0.5, 0.25}) legit = legit || (maxabs(L.xs, rec::step_x(p, rl.b, L.cbs.back().xs, L.cbs.back().dx, a)) < 1e-12 && maxabs(L.us, rec::step_u(L.cbs.back().us, L.cbs.back().du, a)) < 1e-12);
      c.check(legit, "not-a-legitimate-iterate", "");
    } else { Traj gx = xs; gx[0] = pb::Model::embed(p.x0, p.circle); c.check(maxabs(L.xs, gx) == 0 && maxabs(L.us, us) == 0, "guess-not-left", ""); }
  }
  // a later solve starts with a fresh clock and flag (the clock goes on)
  if (q.resets) {
    const Res S = rl.go(xs, us, N, pb::NANV, 0, 0.5, t0 + 1e6);
    c.check(!S.flag, "flag-survives", "");
    const std::string d = diff(U, S);
    c.check(d.empty(), "second-solve-differs", d);
  }
  c.state(mc::mix(mc::mix(uint64_t(k), uint64_t(how)), mc::hdbl(L.q)));
  c.sample(c.cfg);
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C12",
    "the clock the solver reads is replaced by a controlled one; for every configuration the deadline is placed at every reading of the solve (exactly at the limit, far beyond it, just below it) and the result compared with the unlimited solve and with a solver that is allowed only the QP iterations completed before the deadline; a second solve follows",
    "T<=2, nx<=2, 2 control and 3 row patterns, linear and nonlinear, filter/merit, extra iteration, QP warm-start options, tolerances {-1,1e-2}, 3 QP budgets/intervals, failing factorisations, no regularisation, maxiter {0,1,3}, 2 start times",
    "T<=3, 4 QP budgets", {"time is read through crocoddyl's stopwatch"}}, body);
}
