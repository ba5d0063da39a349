// C11: iteration budgets, callbacks once per direction in order, exceptions from callbacks and models.
#include "mc.hpp"
#include "mon.hpp"
using namespace mon;

enum Kind { K_SQP, K_CSQP, K_PROX, K_DDP, K_FDDP };
template <class S> struct Tr {
  static constexpr bool csqp = std::is_same<S, SolverCSQP>::value, prox = std::is_same<S, SolverPROXQP>::value, sqp = std::is_same<S, SolverSQP>::value;
  static constexpr bool con = csqp || prox, ddp = !con && !sqp, extra = sqp || csqp;
  static const char* name() { return csqp ? "CSQP " : prox ? "PROXQP " : sqp ? "SQP " : std::is_same<S, SolverDDP>::value ? "DDP " : "FDDP "; }
};
struct Boom : std::runtime_error { int id; explicit Boom(int i) : std::runtime_error("boom"), id(i) {} };
struct Odd { int id; };  // not derived from std::exception
struct Cb { int id; size_t iter; std::string type; Traj xs, us; };

struct Outcome {
  int ret = -9; int boom = -1; bool odd = false; Traj xs, us; size_t iter = 0; double kkt = 0, cost = 0; std::vector<Cb> log; long ncalc = 0, ndiff = 0;
};
static bool same_out(const Outcome& a, const Outcome& b) {
  return a.ret == b.ret && a.boom == b.boom && a.iter == b.iter && maxabs(a.xs, b.xs) == 0 && maxabs(a.us, b.us) == 0 && close(a.kkt, b.kkt, 0, 0) && close(a.cost, b.cost, 0, 0) && a.log.size() == b.log.size();
}

template <class S> struct Run {
  const pb::Prob& p; rec::Recorder r; pb::Built b; std::unique_ptr<S> sol;
  Outcome o; int cb_throw = -1; bool cb_odd = false; int ncb;
  std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> cbs;
  Run(const pb::Prob& p_, int ncb_, double tol, bool extra, int qpb, int ls) : p(p_), b(pb::build(p_, &r)), ncb(ncb_) {
    { std::streambuf* e = std::cerr.rdbuf(nullptr); sol.reset(new S(b.problem)); sol->set_alphas({1, 0.5, 0.25}); std::cerr.rdbuf(e); }
    sol->set_termination_tolerance(tol);
    rec::attach_if(r, *sol);
    if constexpr (Tr<S>::extra) sol->set_extra_iteration_for_last_kkt(extra);
    if constexpr (Tr<S>::csqp) { sol->set_max_qp_iters(qpb); sol->set_rho_update_interval(5); sol->reset_y_ = true; sol->set_eps_abs(1e-6); sol->set_eps_rel(0); }
    if constexpr (Tr<S>::prox) { sol->set_max_qp_iters(qpb < 50 ? 1000 : qpb); sol->set_eps_abs(1e-8); sol->set_eps_rel(0); }
    if constexpr (!std::is_same<S, SolverDDP>::value) sol->set_use_filter_line_search(ls == 0);
    if constexpr (!Tr<S>::prox) {
      for (int i = 0; i < ncb; ++i) cbs.push_back(callback([this, i](crocoddyl::SolverAbstract& s, const std::string& type) {
        const int n = int(o.log.size());
        o.log.push_back(Cb{i, s.get_iter(), type, s.get_xs(), s.get_us()});
        if (n == cb_throw) { if (cb_odd) throw Odd{n}; throw Boom(n); }
      }));
      sol->setCallbacks(cbs);
    }
  }
  const Outcome& go(const Traj& xs, const Traj& us, size_t N) {
    o = Outcome(); r.start(p.T());
    try { o.ret = sol->solve(xs, us, N, false, pb::NANV); }
    catch (Boom& e) { o.ret = -1; o.boom = e.id; }
    catch (Odd& e) { o.ret = -1; o.boom = e.id; o.odd = true; }
    o.xs = sol->get_xs(); o.us = sol->get_us(); o.iter = sol->get_iter(); o.kkt = sol->get_KKT(); o.cost = sol->get_cost();
    o.ncalc = r.ncalc; o.ndiff = r.ndiff;
    return o;
  }
};

template <class S> static pb::Prob problem(mc::Ctx& c, pb::Shape& s, bool exc) {
  s.T = 1 + c.choose(2 + (c.thorough ? 1 : 0)); s.n = 1 + c.choose(exc ? 1 : 2);
  const int mpat = c.choose(exc ? 1 : 2);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : 2 - t % 2);
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}, {pb::EQUAL}};
  const int rp = Tr<S>::con ? c.choose(3) : 0;
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[rp == 0 ? 0 : rp == 1 ? 1 : size_t(t == s.T ? 3 : 2)]);
  const int nl = c.choose(3);
  if (nl) { s.nlf = 0.6; s.nlx = 0.8; s.nlu = 0.3; s.nlg = Tr<S>::con ? 0.3 : 0; s.hs = 0.4; }
  if (nl == 2) { s.nlf = 0.9; s.nlx = 1.6; s.hs = 0.3; }
  s.variant = c.choose(c.thorough ? 3 : 1);
  s.dev = 0.3;
  return pb::make(s);
}

// every budget, number of callbacks, tolerance
template <class S> static void budgets(mc::Ctx& c) {
  pb::Shape s;
  const pb::Prob p = problem<S>(c, s, false);
  const bool extra = Tr<S>::extra && c.flag();
  const int ls = c.choose(2);
  const int ncb = Tr<S>::prox ? 0 : c.choose(4);
  const double tol = c.pick(std::vector<double>{-1, 1e-2, 1e-5});
  const int qpb = Tr<S>::csqp ? c.pick(std::vector<int>{200, 1, 2, 6}) : Tr<S>::prox ? 200 : 0;
  const int gk = c.choose(2);
  c.shard();
  const size_t N = size_t(c.choose(c.thorough ? 9 : 6));
  c.cfg = mc::cat(Tr<S>::name(), s.str(), " N", N, " extra", extra, " ls", ls, " callbacks", ncb, " tol", tol, " qp", qpb, " guess", gk);
  Traj xs, us; pb::guess(p, gk ? 1 : 0, s.variant, xs, us, 1.2);
  Run<S> k(p, ncb, tol, extra, qpb, ls);
  std::vector<double> qpit;
  if constexpr (Tr<S>::csqp) {
    k.cbs.push_back(callback([&](crocoddyl::SolverAbstract&, const std::string&) { qpit.push_back(k.sol->get_qp_iters()); }));
    k.sol->setCallbacks(k.cbs);
  }
  const Outcome& o = k.go(xs, us, N);
  c.traces++; c.transition(k.r.its.size());
  // SolverCSQP evaluates the problem once more, without a direction, when maxiter is 0
  if (Tr<S>::csqp && N == 0 && !k.r.its.empty()) k.r.its.erase(k.r.its.begin());
  const size_t D = k.r.its.size();
  c.check(D <= N + (extra ? 1 : 0), "too-many-directions", mc::cat(D));
  c.check(o.ret == 0 || o.ret == 1, "exception", "");
  if (N == 0 && !extra) {
    Traj gx = xs; if (!Tr<S>::ddp) gx[0] = pb::Model::embed(p.x0, p.circle);
    c.check(o.ret == 0, "true-with-no-iteration");
    c.check(maxabs(gx, o.xs) == 0 && maxabs(us, o.us) == 0, "guess-not-left", mc::cat(pb::show(o.xs)));
    c.check(o.log.empty(), "callback-without-direction");
    return;
  }
  // the iterates shown: no more moves than allowed
  size_t moves = 0;
  for (size_t i = 1; i < D; ++i) if (maxabs(k.r.its[i].xs, k.r.its[i - 1].xs) != 0 || maxabs(k.r.its[i].us, k.r.its[i - 1].us) != 0) ++moves;
  if (D && k.r.its.back().us.size() == o.us.size() && (maxabs(k.r.its.back().xs, o.xs) != 0 || maxabs(k.r.its.back().us, o.us) != 0)) ++moves;
  c.check(moves <= N, "too-many-moves", mc::cat(moves));
  if (D) {
    Traj gx = xs; if (!Tr<S>::ddp) gx[0] = pb::Model::embed(p.x0, p.circle);
    c.check(maxabs(k.r.its[0].xs, gx) == 0 && maxabs(k.r.its[0].us, us) == 0, "first-iterate-is-not-the-guess", "");
  }
  if (o.ret == 1) {
    c.check(o.kkt <= tol, "true-above-tolerance", mc::cat(o.kkt));
    // a converged solve does not move any more
    if (D) c.check(maxabs(k.r.its.back().xs, o.xs) == 0 && maxabs(k.r.its.back().us, o.us) == 0, "moved-after-convergence");
  } else if (!Tr<S>::ddp) c.check(!(o.kkt <= tol), "false-below-tolerance", mc::cat(o.kkt));
  if constexpr (Tr<S>::sqp || Tr<S>::prox) if (o.ret == 0) c.check(D == N + (extra ? 1 : 0), "too-few-directions", mc::cat(D));
  if constexpr (Tr<S>::csqp) if (o.ret == 0 && D < N + (extra ? 1 : 0)) {
    // only a line search in which every trial failed ends the loop early
    c.stat("CSQP stopped by the line search");
    if (!extra) c.check(D && maxabs(k.r.its.back().xs, o.xs) == 0 && maxabs(k.r.its.back().us, o.us) == 0, "too-few-directions", mc::cat(D));
    else c.check(D >= 2 && maxabs(k.r.its[D - 2].xs, k.r.its[D - 1].xs) == 0, "too-few-directions", mc::cat(D));
  }
  // callbacks
  if (ncb) {
    c.check(o.log.size() % size_t(ncb) == 0, "incomplete-round-of-callbacks", mc::cat(o.log.size()));
    const size_t rounds = o.log.size() / size_t(ncb);
    if (!Tr<S>::ddp) c.check(rounds == D, "callbacks-per-direction", mc::cat(rounds, " rounds, ", D, " directions"));
    else {
      // one round per iteration that made a line search
      const size_t iters = o.iter;
      c.check(rounds == iters, "callbacks-per-iteration", mc::cat(rounds, " rounds, ", iters, " iterations"));
      c.check(o.ret == 1 || o.iter == N, "stopped-early", mc::cat(o.iter));
    }
    for (size_t i = 0; i < o.log.size(); ++i) {
      const Cb& e = o.log[i]; const size_t rd = i / size_t(ncb);
      c.check(e.id == int(i % size_t(ncb)), "callback-order", mc::cat("call ", i, " is callback ", e.id));
      if (!Tr<S>::ddp) c.check(maxabs(e.xs, k.r.its[rd].xs) == 0 && maxabs(e.us, k.r.its[rd].us) == 0, "callback-at-another-iterate", mc::cat("round ", rd));
      // the extra iteration of a CSQP loop that ended early has the number of the last iteration
      const bool repeat = Tr<S>::csqp && extra && rd + 1 == rounds && rd >= 1 && e.iter + 1 == rd && maxabs(k.r.its[rd].xs, k.r.its[rd - 1].xs) == 0;
      c.check(e.iter == rd || repeat, "callback-iteration-number", mc::cat("round ", rd, " shows iteration ", e.iter));
      if (!Tr<S>::ddp) c.check(e.type == (Tr<S>::csqp ? "CSQP" : "SQP"), "callback-type", e.type);
    }
    c.nontrivial++;
  }
  for (double q : qpit) c.check(q >= 1 && q <= qpb, "qp-budget", mc::cat(q, " of ", qpb));
  c.state(mc::mix(mc::hdbl(o.kkt), mc::mix(D, o.log.size())));
  c.stat(o.ret == 1 ? "converged" : "budget used");
  c.sample(c.cfg);
}

// an exception at every callback and at every model evaluation
template <class S> static void exceptions(mc::Ctx& c) {
  pb::Shape s;
  const pb::Prob p = problem<S>(c, s, true);
  const bool extra = Tr<S>::extra && c.flag();
  const int ls = c.choose(2);
  const int where = Tr<S>::prox ? 1 + c.choose(2) : c.choose(3);  // callback, values, derivatives
  const double tol = c.pick(std::vector<double>{-1, 1e-2});
  const bool odd = where == 0 && c.flag();
  c.shard();
  const size_t N = size_t(c.pick(std::vector<int>{3, 1}));
  const int qpb = 60;
  Traj xs, us; pb::guess(p, 1, s.variant, xs, us, 1.2);
  Run<S> ref(p, 2, tol, extra, qpb, ls);
  const Outcome base = ref.go(xs, us, N);
  const long total = where == 0 ? long(base.log.size()) : where == 1 ? base.ncalc : base.ndiff;
  if (total == 0) return;
  // quick: every position of the first 60 evaluations, T+1 per rollout
  const int pos = c.choose(int(std::min<long>(total, c.thorough ? 200 : 60)));
  c.cfg = mc::cat(Tr<S>::name(), s.str(), " N", N, " extra", extra, " ls", ls, " tol", tol, where == 0 ? " callback" : where == 1 ? " calc" : " calcDiff", " throws at ", pos, odd ? " (not a std::exception)" : "");
  Run<S> k(p, 2, tol, extra, qpb, ls);
  bool at_iterate = false, fired = false, ambiguous = false;
  auto same_pt = [&](int node, const VectorXd& x, const VectorXd& u) {
    const Traj &cx = k.sol->get_xs(), &cu = k.sol->get_us();
    if constexpr (!Tr<S>::ddp) {
      // a trial with a zero step is at the iterate
      double d = k.sol->get_dx()[size_t(node)].template lpNorm<1>();
      if (node < p.T()) d += k.sol->get_du()[size_t(node)].template lpNorm<1>();
      if (d < 1e-12 && !k.r.its.empty()) ambiguous = true;
    } else if (!k.r.its.empty()) { double d = 0; for (size_t t = 0; t < k.sol->get_k().size(); ++t) d += k.sol->get_k()[t].template lpNorm<1>(); if (d < 1e-12) ambiguous = true; }
    return x == cx[size_t(node)] && (node == p.T() || u == cu[size_t(node)]);
  };
  if (where == 0) { k.cb_throw = pos; k.cb_odd = odd; }
  else if (where == 1) k.r.fault = [&](long n, int t, crocoddyl::ActionDataAbstract&, const VectorXd& x, const VectorXd& u) { if (n == pos && !fired) { fired = true; at_iterate = same_pt(t, x, u); throw Boom(pos); } };
  else k.r.dfault = [&](long n, int t, crocoddyl::ActionDataAbstract&, const VectorXd&, const VectorXd&) { if (n == pos && !fired) { fired = true; at_iterate = true; throw Boom(pos); } };
  const Outcome o = k.go(xs, us, N);
  c.traces++; c.transition(k.r.its.size()); c.nontrivial++;
  if (at_iterate && ambiguous && where == 1) { c.stat("zero steps"); return; }
  if (where == 0 || at_iterate) {
    c.check(o.ret == -1 && o.boom == pos && o.odd == odd, where == 0 ? "callback-exception-lost" : "model-exception-lost", mc::cat("returned ", o.ret));
    c.stat(where == 0 ? "callback exceptions" : "exceptions at the iterate");
    if (where == 0) c.check(o.log.size() == size_t(pos) + 1, "callbacks-after-exception", mc::cat(o.log.size()));
  } else {
    c.stat("exceptions in a trial");
    c.check(fired, "not-reached", "");
    c.check(o.ret == 0 || o.ret == 1, "exception-in-a-trial-ends-the-solve", "");
    // the same as a trial that is not finite
    Run<S> q(p, 2, tol, extra, qpb, ls);
    bool done = false;
    q.r.fault = [&](long n, int, crocoddyl::ActionDataAbstract& d, const VectorXd&, const VectorXd&) { if (n == pos && !done) { done = true; d.cost = pb::NANV; } };
    const Outcome& oq = q.go(xs, us, N);
    // (evaluations after the failing node may differ in number)
    c.check(o.ret == oq.ret && o.iter == oq.iter && maxabs(o.xs, oq.xs) == 0 && maxabs(o.us, oq.us) == 0 && close(o.kkt, oq.kkt, 0, 0), "exception-differs-from-rejection", mc::cat("KKT ", o.kkt, " / ", oq.kkt));
    // and the same as a trial that is hopeless (finite): the search goes on with the next step length
    bool free = true; for (auto& rw : s.rows) free &= rw.empty();
    if (!Tr<S>::ddp) {
      Run<S> h(p, 2, tol, extra, qpb, ls);
      bool hit = false, able = false;
      h.r.fault = [&](long n, int t, crocoddyl::ActionDataAbstract& d, const VectorXd&, const VectorXd&) {
        if (n != pos || hit) return;
        hit = true; able = ls == 1 || (free && t < p.T());
        d.cost = 1e20; if (ls == 0 && t < p.T()) d.xnext[0] += 1e10;
      };
      const Outcome& oh = h.go(xs, us, N);
      if (able) { c.stat("hopeless trials compared"); c.check(o.ret == oh.ret && o.iter == oh.iter && maxabs(o.xs, oh.xs) == 0 && maxabs(o.us, oh.us) == 0 && close(o.kkt, oh.kkt, 0, 0), "exception-ends-the-search", mc::cat("KKT ", o.kkt, ", with a hopeless trial instead ", oh.kkt)); }
    }
  }
  if (o.ret == 1) c.check(o.kkt <= tol, "true-above-tolerance", "");
  // and the solver is as good as new
  k.cb_throw = -1; k.r.fault = nullptr; k.r.dfault = nullptr;
  if (!Tr<S>::ddp) {
    const Outcome& again = k.go(xs, us, N);
    c.check(same_out(again, base), "unusable-after-exception", mc::cat("ret ", again.ret, "/", base.ret, " boom ", again.boom, " iter ", again.iter, "/", base.iter, " dx ", maxabs(again.xs, base.xs), " KKT ", again.kkt, "/", base.kkt));
  }
  c.state(mc::mix(mc::mix(uint64_t(pos), uint64_t(where)), mc::hdbl(o.kkt)));
  c.sample(c.cfg);
}
// from some evaluation on, no regularisation makes the factorisation succeed: solve() has to come to an end
template <class S> static void hopeless(mc::Ctx& c) {
  if (Tr<S>::prox) return;
  pb::Shape s;
  const pb::Prob p = problem<S>(c, s, true);
  const bool extra = Tr<S>::extra && c.flag();
  const int ls = c.choose(2);
  const size_t N = size_t(c.choose(4));
  const int from = c.choose(4);  // the linearisation that is the first hopeless one
  const double reg = c.pick(std::vector<double>{pb::NANV, 1.0, 1e9});
  const int node = c.choose(s.T);
  c.shard();
  c.cfg = mc::cat(Tr<S>::name(), s.str(), " N", N, " extra", extra, " ls", ls, " no factorisation from linearisation ", from, " on at node ", node, " regularisation ", reg);
  Traj xs, us; pb::guess(p, 1, s.variant, xs, us, 1.2);
  Run<S> k(p, 2, -1, extra, 20, ls);
  long lin = 0;
  k.r.dfault = [&](long, int t, crocoddyl::ActionDataAbstract& d, const VectorXd&, const VectorXd&) {
    if (t == node && lin >= from) d.Luu.diagonal().array() -= 1e14;
    if (t == p.T()) ++lin;
  };
  k.o = Outcome(); k.r.start(p.T());
  int ret = -1;
  try { ret = k.sol->solve(xs, us, N, false, reg); } catch (std::exception& e) { c.check(false, "exception", e.what()); return; }
  c.traces++; c.transition(lin); c.nontrivial++;
  c.check(ret == 0, "converged-without-a-direction", "");
  c.check(lin <= long(N) + extra + (Tr<S>::csqp && N == 0), "too-many-directions", mc::cat(lin));
  const size_t rounds = k.o.log.size() / 2;
  c.check(k.o.log.size() % 2 == 0 && (Tr<S>::ddp || rounds <= std::min<size_t>(size_t(from), N + extra)), "callback-without-direction", mc::cat(rounds, " rounds"));
  if (k.sol->get_xs().size() == xs.size() && !from) c.check(maxabs(k.sol->get_us(), us) == 0, "moved-without-direction", pb::show(k.sol->get_us()));
  c.state(mc::mix(uint64_t(lin), mc::hdbl(k.sol->get_preg())));
  c.stat("hopeless factorisations");
  c.sample(c.cfg);
}
template <class S> static void run(mc::Ctx& c) { if (c.flag()) return hopeless<S>(c); if (c.flag()) exceptions<S>(c); else budgets<S>(c); }
static void body(mc::Ctx& c) {
  switch (c.choose(5)) {
    case 0: run<SolverSQP>(c); break;
    case 1: run<SolverCSQP>(c); break;
    case 2: run<SolverPROXQP>(c); break;
    case 3: run<SolverDDP>(c); break;
    default: run<SolverFDDP>(c); break;
  }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C11",
    "stateless enumeration of real solves with every iteration budget, number of callbacks and tolerance; an exception injected at every callback invocation and at every model evaluation of a solve, followed by a fault-free solve that has to equal one of a new solver",
    "5 solvers, T<=2, nx<=2, 3 row patterns, 3 nonlinearity levels, maxiter 0..5, 0..3 callbacks, extra iteration, filter/merit, QP budgets {1,2,6,200}, 2 guesses; exceptions at each of up to 60 positions of each kind in solves of 1 and 3 iterations",
    "T<=3, maxiter 0..8, 3 number tables, exceptions at up to 200 positions", {"SolverDDP and SolverFDDP call their callbacks after the line search, hence not in the converged iteration"}}, body);
}
