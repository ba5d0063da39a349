// C08: rejected or failed trial steps leave no trace in the iterate.
#include <set>
#include "adv.hpp"
#include "mc.hpp"
#include "mon.hpp"

// ---------------------------------------------------------------------------------------------
// Part A: adversarial one-stage problem, every history of trial outcomes.
namespace parta {
using namespace adv;
enum Out { BETTER, DOMINATED, COST_N, GAP_N, THROW, CON_N };

struct ThrowEnv { std::set<long long> throwing; };

template <class S> static void run(mc::Ctx& c) {
  typedef Traits<S> TR;
  const bool th = c.thorough;
  const std::vector<double> alphas = c.pick(std::vector<std::vector<double>>{{1, 0.5}, {1, 0.25, 0.125}});
  const bool filter = c.flag();
  const size_t fsize = filter ? c.pick(std::vector<size_t>{1, 2}) : 1;
  const bool extra = TR::proxqp ? false : c.flag();
  const double reg = c.pick(std::vector<double>{pb::NANV, 0.25});
  const bool second = c.flag();
  c.shard();
  Rig<S> r;
  r.set_alphas(alphas);
  S& sol = *r.sol;
  sol.set_use_filter_line_search(filter);
  sol.set_filter_size(fsize);
  sol.set_mu_dynamic(3);
  if constexpr (TR::con) sol.set_mu_constraint(5);
  if constexpr (!TR::proxqp) sol.set_extra_iteration_for_last_kkt(extra);
  const size_t N = th ? 4 : 3;
  c.cfg = mc::cat("A ", TR::name(), " alphas#", alphas.size(), " filter ", filter, fsize, " extra ", extra, " reg ", reg, " second ", second);
  // the guess is infeasible in its first state as well: x0 has to be restored
  int budget = th ? 6 : (alphas.size() == 2 ? 5 : 4);
  std::string hist;
  std::map<long long, int> out;
  bool guess = true; double best = 100, worst = 100;
  std::set<long long> bad;
  r.env.answer = [&](int ord, double x1) {
    int o = BETTER;
    const bool g0 = guess; guess = false;
    if (!g0) { if (budget > 0) { --budget; o = c.choose(TR::con ? 6 : 5); } else o = DOMINATED; }
    Pt q; q.fault = o; q.lu = -(1 + 0.171 * ord); q.luu = 1 + 0.05 * (ord % 3); q.g = 0;
    q.X = x1 + (o == DOMINATED ? 40 + ord : 4.0 / (1 + ord));
    if (TR::con && ord == 0) q.g = 0;
    if (TR::con && o == DOMINATED) q.g = 30;
    if (o == BETTER) { best -= 7; q.cost = best; } else { worst += 11; q.cost = worst; }
    if (o == COST_N) q.cost = pb::NANV;
    if (o == GAP_N) { q.cost = best - 50; q.X = pb::NANV; }
    if (o == CON_N) { q.cost = best - 50; q.g = pb::NANV; }
    if (!g0) hist += mc::cat(" p", ord, ":", o);
    c.transition();
    return q;
  };
  // exceptions are thrown by the model itself
  struct Thrower : pb::Hooks {
    Env* e; int calls = 0;
    void on_calc(int n, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd& u) override {
      e->on_calc(n, d, x, u);
      if (n == 0 && e->memo.at(Env::key(u[0])).fault == THROW) { ++calls; throw std::runtime_error("model"); }
    }
    void on_diff(int n, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd& u) override { e->on_diff(n, d, x, u); }
  } thrower;
  thrower.e = &r.env;
  for (auto& m : r.b.models) m->hooks = &thrower;

  for (int pass = 0; pass < (second ? 2 : 1); ++pass) {
    hist += " |"; guess = true;
    if (pass) budget = std::min(budget, 2);
    const double u0 = pass * 4096.0;
    std::vector<std::pair<double, double>> shown;  // iterates at callbacks
    std::vector<std::array<double, 6>> rep;
    if constexpr (!TR::proxqp)
      sol.setCallbacks({callback([&](crocoddyl::SolverAbstract&, const std::string&) {
        shown.push_back({sol.get_us()[0][0], sol.get_xs()[1][0]});
        double con = 0; if constexpr (TR::con) con = sol.get_constraint_norm();
        rep.push_back({sol.get_cost(), sol.get_gap_norm(), con, sol.get_KKT(), sol.get_du()[0][0], sol.get_preg()});
        c.check(sol.get_xs().size() == 2 && sol.get_us().size() == 1 && sol.get_xs()[0].size() == 1 && sol.get_xs()[0][0] == 0, "x0-not-respected", hist);
      })});
    const bool ret = r.solve(u0, 1.5, N, reg, 0.75);
    c.traces++;
    c.check(!ret, "returned-true", hist);
    const auto& its = r.env.its;
    if (!c.check(!its.empty(), "no-iteration", hist)) return;
    if (!TR::proxqp) c.check(shown.size() == its.size(), "callback-count", mc::cat(shown.size(), " callbacks, ", its.size(), " linearisations", hist));
    size_t rejected = 0;
    // expected outcome of a line search from iterate k: first trial that is better
    auto point = [&](double u) -> const Pt* { auto f = r.env.memo.find(Env::key(u)); return f == r.env.memo.end() ? nullptr : &f->second; };
    for (size_t k = 0; k < its.size(); ++k) {
      if (k == 0) c.check(its[0].u == u0 && its[0].x1 == 1.5, "guess-not-used", mc::cat(its[0].u, hist));
      else {
        // either unchanged or one accepted step
        const It& pr = its[k - 1];
        const bool same = its[k].u == pr.u && its[k].x1 == pr.x1;
        bool step = false; const Pt* q = nullptr;
        for (double a : alphas) if (its[k].u == pr.u + a * pr.du && std::fabs(its[k].x1 - (pr.x1 + a * pr.dx)) <= 1e-12 * (1 + std::fabs(its[k].x1))) { step = true; q = point(its[k].u); }
        c.check(same || step, "iterate-not-explained", mc::cat("iterate ", k, ": u=", its[k].u, " x1=", its[k].x1, " from u=", pr.u, " x1=", pr.x1, " du=", pr.du, " dx=", pr.dx, hist));
        if (step && !same) c.check(q && q->fault == BETTER, "failed-trial-accepted", mc::cat("iterate ", k, " fault ", q ? q->fault : -1, hist));
        if (same && !step) {
          ++rejected;
          bool any = false, all = true;
          for (double a : alphas) all &= point(pr.u + a * pr.du) != nullptr;
          c.check(all, "search-ended-early", mc::cat("iterate ", k, " is the one before although not every step length was tried", hist));
          for (double a : alphas) { q = point(pr.u + a * pr.du); if (q && q->fault == BETTER) any = true; }
          c.check(!any, "good-trial-discarded", mc::cat("iterate ", k, hist));
          c.stat("all rejected");
        }
      }
      const double want_du = -its[k].pt.lu / (its[k].pt.luu + (TR::proxqp ? 0 : its[k].preg));
      if (its[k].dir) {
        c.check(close(its[k].du, want_du, 1e-5, 1e-7), "direction-of-another-point", mc::cat("iterate ", k, ": du=", its[k].du, " expected ", want_du, hist));
        c.check(close(its[k].dx, its[k].pt.X - its[k].x1, 1e-5, 1e-7), "state-direction-of-another-point", mc::cat("iterate ", k, ": dx=", its[k].dx, " expected ", its[k].pt.X - its[k].x1, hist));
      }
      if (!TR::proxqp && k < shown.size()) {
        c.check(shown[k].first == its[k].u && shown[k].second == its[k].x1, "callback-iterate", mc::cat("iterate ", k, hist));
        const Val v = val(its[k].pt, its[k].x1);
        c.check(close(rep[k][0], v.cost, 1e-12, 1e-12) && close(rep[k][1], v.gap, 1e-12, 1e-12) && (!TR::con || close(rep[k][2], v.con, 1e-12, 1e-12)), "metrics-of-another-point",
                mc::cat("iterate ", k, ": cost ", rep[k][0], " (", v.cost, ") gap ", rep[k][1], " (", v.gap, ") constraint ", rep[k][2], " (", v.con, ")", hist));
        const double want = -its[k].pt.lu / (its[k].pt.luu + rep[k][5]);
        c.check(close(rep[k][4], want, 1e-5, 1e-7), "direction-of-another-point", mc::cat("callback ", k, ": du=", rep[k][4], " expected ", want, hist));
        // the residual describes this point: with vanishing multipliers it is the gap or the control gradient at least
        c.check(rep[k][3] >= v.gap - 1e-12, "residual-of-another-point", mc::cat("callback ", k, ": KKT=", rep[k][3], " gap ", v.gap, hist));
      }
    }
    // what is returned
    const double fu = r.u(), fx = r.x1();
    const It& la = its.back();
    bool ok = fu == la.u && fx == la.x1;
    if (!ok && la.dir) for (double a : alphas) if (fu == la.u + a * la.du && std::fabs(fx - (la.x1 + a * la.dx)) <= 1e-12 * (1 + std::fabs(fx))) { const Pt* q = point(fu); ok = q && q->fault == BETTER; }
    c.check(ok, "returned-iterate-not-explained", mc::cat("u=", fu, " x1=", fx, " last iterate u=", la.u, " x1=", la.x1, " du=", la.du, " dx=", la.dx, hist));
    c.check(sol.get_xs()[0][0] == 0 && sol.get_xs().size() == 2 && sol.get_us().size() == 1, "x0-not-respected", "on return");
    if (rejected) c.nontrivial++;
    c.state(mc::mix(mc::hdbl(fu), mc::mix(mc::hdbl(fx), its.size())));
  }
  c.stat("exceptions", thrower.calls);
  c.sample(c.cfg + hist);
}
}  // namespace parta

// ---------------------------------------------------------------------------------------------
// Part B: real problems; every subset of the first trials fails, at a chosen node and in a chosen way.
namespace partb {
using namespace mon;
enum Fault { F_COST, F_X, F_G, F_THROW, F_HUGE };

template <class S> static void run(mc::Ctx& c) {
  const bool th = c.thorough;
  constexpr bool csqp = std::is_same<S, SolverCSQP>::value, prox = std::is_same<S, SolverPROXQP>::value, con = csqp || prox;
  pb::Shape s;
  s.T = 1 + c.choose(3); s.n = 1 + c.choose(2);
  const int mpat = c.choose(2);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : 1 + (t + 1) % 2);
  if (con) { const int rp = c.choose(2); for (int t = 0; t <= s.T; ++t) s.rows.push_back(rp ? std::vector<int>{(t % 2) ? pb::UPPER : pb::TWO} : std::vector<int>{}); }
  else s.rows.assign(size_t(s.T) + 1, {});
  s.circle = c.flag();
  s.nlf = 0.6; s.nlx = 0.8; s.nlg = con ? 0.3 : 0; s.dev = 0.3; s.variant = c.choose(th ? 3 : 1);
  const bool filter = c.flag();
  const bool extra = !prox && c.flag();
  const int fault = c.choose(5);
  if (fault == F_G && (!con || s.rows[0].empty())) return;
  const int node = c.choose(s.T + 1);
  if (fault == F_X && node == s.T) return;
  c.shard();
  const int bits = th ? 8 : 6;
  const unsigned mask = unsigned(c.choose(1 << bits));
  const pb::Prob p = pb::make(s);
  c.cfg = mc::cat("B ", csqp ? "CSQP " : prox ? "PROXQP " : "SQP ", s.str(), " filter ", filter, " extra ", extra, " fault ", fault, " node ", node, " mask ", mask);

  rec::Recorder r;
  auto b = pb::build(p, &r);
  S sol(b.problem);
  rec::attach(r, sol);
  const std::vector<double> alphas = {1, 0.5, 0.125};
  { std::streambuf* o = std::cerr.rdbuf(nullptr); sol.set_alphas(alphas); std::cerr.rdbuf(o); }
  sol.set_use_filter_line_search(filter);
  sol.set_mu_dynamic(3);
  sol.set_termination_tolerance(1e-9);
  if constexpr (con) sol.set_mu_constraint(7);
  if constexpr (csqp) { sol.set_max_qp_iters(150); sol.set_eps_abs(1e-8); sol.set_eps_rel(0); }
  if constexpr (prox) { sol.set_eps_abs(1e-9); sol.set_eps_rel(0); }
  if constexpr (!prox) sol.set_extra_iteration_for_last_kkt(extra);
  Traj xs, us;
  pb::guess(p, 1, s.variant, xs, us, 1.2);
  if (!s.circle) xs[0][0] += 0.375;  // x0 has to be restored

  // trials are recognised by their position relative to the current iterate
  int trial = -1; long faults = 0;
  std::vector<std::pair<size_t, double>> failed;   // iterate index, u/x fingerprint of the failed trial
  double cur_alpha = -1; std::set<double> seen; size_t seen_it = 0;
  r.fault = [&](long, int t, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd& u) {
    if (r.its.empty() || !r.its.back().dir) return;
    const auto& it = r.its.back();
    if (t == 0) {
      cur_alpha = -1;
      for (double a : alphas) if ((u - (it.us[0] + a * it.du[0])).template lpNorm<1>() == 0) cur_alpha = a;
      if (u.size() && it.du[0].template lpNorm<1>() == 0) cur_alpha = -1;
      if (seen_it != r.its.size()) { seen.clear(); seen_it = r.its.size(); }
      if (cur_alpha >= 0 && seen.count(cur_alpha)) cur_alpha = -1;  // the iterate is being evaluated again
      if (cur_alpha >= 0) { seen.insert(cur_alpha); ++trial; }
    }
    if (cur_alpha < 0 || trial >= bits || !(mask >> trial & 1) || t != node) return;
    ++faults;
    failed.push_back({r.its.size() - 1, cur_alpha});
    if (fault == F_COST) d.cost = pb::NANV;
    if (fault == F_HUGE) d.cost = 1e31;
    if (fault == F_X) d.xnext[d.xnext.size() - 1] = pb::NANV;
    if (fault == F_G) d.g[0] = pb::NANV;
    (void)x;
    if (fault == F_THROW) throw std::runtime_error("model");
  };
  auto first = r.snapshot;
  r.snapshot = [&](rec::It& i) {
    first(i);
    // at the start of the line search the solver still describes the iterate
    if constexpr (prox) {
      const pb::Eval e = pb::evaluate(p, i.xs, i.us);
      c.check(close(sol.get_cost(), e.cost, 1e-9, 1e-10) && close(sol.get_gap_norm(), e.gap1, 1e-9, 1e-9) && close(sol.get_constraint_norm(), e.con1, 1e-9, 1e-9), "metrics-of-another-point", mc::cat("iterate ", r.its.size() - 1));
    }
    c.check(maxabs(sol.get_xs(), i.xs) == 0 && maxabs(sol.get_us(), i.us) == 0, "iterate-and-derivatives-differ", mc::cat("iterate ", r.its.size() - 1));
  };
  if constexpr (!prox)
    sol.setCallbacks({callback([&](crocoddyl::SolverAbstract&, const std::string&) {
      c.transition();
      if (r.its.empty()) return;
      c.check(maxabs(sol.get_xs(), r.its.back().xs) == 0 && maxabs(sol.get_us(), r.its.back().us) == 0, "callback-iterate", mc::cat("iterate ", r.its.size() - 1));
      const std::string d = compare(sol, p);
      c.check(d.empty(), "metrics-of-another-point: " + d.substr(0, d.find(" is")), mc::cat("iterate ", r.its.size() - 1, ": ", d));
    })});
  r.start(s.T);
  sol.solve(xs, us, 4, false, pb::NANV);
  c.traces++;
  if (faults) c.nontrivial++;
  c.stat("failed trials", faults);
  auto legit = [&](const Traj& x, const Traj& u, size_t from, const char* where) {
    const auto& pr = r.its[from];
    if (!c.check(x.size() == size_t(s.T) + 1 && u.size() == size_t(s.T), "sizes", where)) return;
    c.check(maxabs({x[0]}, {pb::Model::embed(p.x0, p.circle)}) <= (s.circle ? 1e-12 : 0), "x0-not-respected", where);
    if (maxabs(x, pr.xs) == 0 && maxabs(u, pr.us) == 0) { c.stat("unchanged"); return; }
    if (!c.check(pr.dir, "moved-without-direction", where)) return;
    double acc = -1;
    for (double a : alphas) {
      Traj tx = rec::step_x(p, b, pr.xs, pr.dx, a), tu = rec::step_u(pr.us, pr.du, a);
      if (maxabs(tx, x) <= 1e-12 * (1 + 10) && maxabs(tu, u) <= 1e-11) acc = a;
    }
    if (!c.check(acc > 0, "iterate-not-explained", mc::cat(where, " x=", pb::show(x), " u=", pb::show(u)))) return;
    for (auto& f : failed) c.check(!(f.first == from && f.second == acc), "failed-trial-accepted", mc::cat(where, " alpha ", acc));
    c.stat("moved");
  };
  if (!r.its.empty()) {
    c.check(maxabs(r.its[0].us, us) == 0, "guess-not-used", "");
    for (size_t k = 1; k < r.its.size(); ++k) legit(r.its[k].xs, r.its[k].us, k - 1, mc::cat("iterate ", k).c_str());
    legit(sol.get_xs(), sol.get_us(), r.its.size() - 1, "on return");
  }
  c.state(mc::mix(mc::hdbl(sol.get_KKT()), mc::mix(mask, r.its.size())));
  c.sample(c.cfg);
}
}  // namespace partb

static void body(mc::Ctx& c) {
  switch (c.choose(6)) {
    case 0: parta::run<sv::SolverSQP>(c); break;
    case 1: parta::run<sv::SolverCSQP>(c); break;
    case 2: parta::run<sv::SolverPROXQP>(c); break;
    case 3: partb::run<sv::SolverSQP>(c); break;
    case 4: partb::run<sv::SolverCSQP>(c); break;
    default: partb::run<sv::SolverPROXQP>(c); break;
  }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C08",
    "stateless exploration of the real solvers: (A) an adversarial one-stage environment decides for every new point whether it is better, dominated, non-finite (cost, gap, constraint) or raises an exception; (B) on real problems every subset of the first trials fails, at every node and in every way; every iterate must be the guess or its predecessor plus one accepted step, and metrics and direction those of that iterate",
    "A: 3 solvers, 2 step-length lists, filter (2 sizes) and merit, extra iteration, 2 regularisations, second solve, 4-5 free points with 5-6 outcomes each, 3 iterations; B: T<=3, nx<=2, manifold, 2 row patterns, 5 fault kinds x every node x every subset of the first 6 trials, 4 iterations",
    "A: 6 free points, 4 iterations; B: 3 number tables, subsets of the first 8 trials", {}}, body);
}
