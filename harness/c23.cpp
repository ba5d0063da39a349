// C23: SolverKKT.  Every trial and iteration of the real solver is compared with a dense formulation of the
// linear-quadratic subproblem assembled from the problem alone, also after updates of the problem.
#include "mc.hpp"
#include "mon.hpp"
#include "mim_solvers/kkt.hpp"
using namespace mon;
using mim_solvers::SolverKKT;

struct Extra : pb::Hooks {   // as in c22: the outcome of every new terminal point is decided by the explorer
  std::function<int(int)> answer; std::map<std::vector<long long>, int> memo; int seen = 0, T = 0;
  std::vector<std::pair<int, std::pair<VectorXd, VectorXd>>>* rec = nullptr;
  int at(const VectorXd& x) {
    std::vector<long long> k; for (int i = 0; i < x.size(); ++i) k.push_back(std::isfinite(x[i]) ? std::llround(std::min(1e10, std::max(-1e10, x[i])) * 1e8) : 0x7fffffff);
    auto f = memo.find(k); if (f != memo.end()) return f->second;
    for (auto& m : memo) { bool same = true; for (size_t i = 0; i < k.size(); ++i) same = same && std::llabs(m.first[i] - k[i]) <= 2; if (same) { const int a = m.second; return memo[k] = a; } }
    return memo[k] = answer(seen++);
  }
  static double cost(int a) { return a == 1 ? 1000 : a == 2 ? pb::NANV : a == 4 ? -1000 : 0; }
  void on_calc(int node, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd& u) override {
    if (rec) rec->push_back({node, {x, u}});
    if (node != T) return;
    const int a = at(x);
    if (a == 3) throw std::runtime_error("model");
    d.cost += cost(a);
  }
};
struct Shot { MatrixXd kkt; VectorXd ref, pd; Traj dx, du, lam, xs, us; double cost, KKT; bool feas; size_t iter; Eigen::Vector2d d; };
struct Trial { double alpha, dV = 0; bool threw = false; std::vector<std::pair<int, std::pair<VectorXd, VectorXd>>> pts; };
struct End { Traj xs, us; double cost, step, KKT, stop, dV, dVexp; bool feas; size_t iter; };
struct Iter { Shot s; std::vector<Trial> tr; End e; bool ended = false; };

struct Spy : SolverKKT {
  Extra* env; std::vector<Iter>* log; bool fresh = true;
  Spy(std::shared_ptr<crocoddyl::ShootingProblem> p, Extra* e, std::vector<Iter>* l) : SolverKKT(p), env(e), log(l) {}
  Shot shot() { return Shot{get_kkt(), get_kktref(), get_primaldual(), get_dxs(), get_dus(), get_lambdas(), get_xs(), get_us(), get_cost(), get_KKT(), get_is_feasible(), get_iter(), get_d()}; }
  double tryStep(const double a) override {
    if (fresh) { fresh = false; log->push_back(Iter()); log->back().s = shot(); }
    log->back().tr.push_back(Trial()); Trial& t = log->back().tr.back(); t.alpha = a; env->rec = &t.pts;
    try { t.dV = SolverKKT::tryStep(a); env->rec = nullptr; return t.dV; } catch (...) { env->rec = nullptr; log->back().tr.back().threw = true; throw; }
  }
};
struct Back : crocoddyl::CallbackAbstract {
  Spy* s;
  explicit Back(Spy* s_) : s(s_) {}
  void operator()(crocoddyl::SolverAbstract& a) override {
    s->fresh = true;
    if (s->log->empty() || s->log->back().ended) { s->log->push_back(Iter()); s->log->back().s = s->shot(); }
    s->log->back().ended = true;
    s->log->back().e = End{a.get_xs(), a.get_us(), a.get_cost(), a.get_steplength(), s->get_KKT(), a.get_stop(), a.get_dV(), a.get_dVexp(), a.get_is_feasible(), a.get_iter()};
  }
};
static double err(const MatrixXd& a, const MatrixXd& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return pb::INF; double m = 0; for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) { double d = std::fabs(a(i, j) - b(i, j)); if (std::isnan(d)) return pb::INF; m = std::max(m, d); } return m; }
static double mag(const MatrixXd& a) { return a.size() ? a.lpNorm<Eigen::Infinity>() : 0; }

// the linear-quadratic subproblem: [H A'; A 0] [p; lambda] = -[g; c]
struct Sub { MatrixXd K; VectorXd r; int nx, nu; std::vector<int> iu; };
static Sub assemble(const pb::Prob& p, const Lin& L, const pb::Eval& e) {
  Sub s; const int T = p.T(), n = p.n(); s.nx = n * (T + 1); s.nu = p.nus();
  const int N = s.nx + s.nu; s.K = MatrixXd::Zero(N + s.nx, N + s.nx); s.r = VectorXd::Zero(N + s.nx);
  int o = s.nx;
  for (int t = 0; t < T; ++t) { s.iu.push_back(o); o += p.run[size_t(t)].m; }
  auto put = [&](int i, int j, const MatrixXd& M) { s.K.block(i, j, M.rows(), M.cols()) += M; if (i != j) s.K.block(j, i, M.cols(), M.rows()) += M.transpose(); };
  for (int t = 0; t <= T; ++t) {
    const size_t i = size_t(t);
    put(t * n, t * n, L.Lxx[i]); s.r.segment(t * n, n) = L.Lx[i];
    put(N + t * n, t * n, MatrixXd::Identity(n, n));
    s.r.segment(N + t * n, n) = -e.gap[i];
    if (t < T) {
      put(N + (t + 1) * n, t * n, -L.Fx[i]);
      if (p.run[i].m) { put(N + (t + 1) * n, s.iu[i], -L.Fu[i]); put(s.iu[i], s.iu[i], L.Luu[i]); put(t * n, s.iu[i], L.Lxu[i]); s.r.segment(s.iu[i], p.run[i].m) = L.Lu[i]; }
    }
  }
  return s;
}
struct Cfg { int maxiter = 4; bool feas = false; double tol = 1e-9, acc = 0.1, th_stop = 1e-9; };

static void replay(mc::Ctx& c, const pb::Prob& p, Extra& env, Spy& s, std::vector<Iter>& log, const Traj& xs0, const Traj& us0, const Cfg& o, int ret) {
  const int T = p.T(), n = p.n();
  if (ret < 0) { c.fail("throws", ""); return; }
  Traj xs = xs0, us = us0; bool feas = o.feas, was = false, lost = false, done = false; size_t li = 0;
  env.answer = [](int) { return 0; };
  for (int it = 0; it < o.maxiter && !done; ++it) {
    const pb::Eval E = pb::evaluate(p, xs, us); const Lin L = pb::linearise(p, xs, us);
    const double cost = E.cost + Extra::cost(env.at(xs.back()));
    const Sub q = assemble(p, L, E);
    Eigen::FullPivLU<MatrixXd> lu(q.K); const double piv = lu.matrixLU().diagonal().cwiseAbs().minCoeff();
    if (!(piv > 1e-6 * lu.maxPivot())) { c.stat("singular system"); lost = true; break; }
    VectorXd w = lu.solve(-q.r); w += lu.solve(-q.r - q.K * w);
    const double cond = lu.maxPivot() / piv, wsz = 1 + mag(w);
    const int N = q.nx + q.nu;
    const VectorXd prim = w.head(N), lam = w.tail(q.nx), g = q.r.head(N), rl = g + q.K.block(N, 0, q.nx, N).transpose() * lam;
    double kkt = std::max(mag(rl), mag(q.r.tail(q.nx)));
    const bool more = li < log.size();
    const Shot B = more ? log[li].s : s.shot();
    c.transition();
    if (!c.check(maxabs(B.xs, xs) == 0 && maxabs(B.us, us) == 0, "iterate-wrong", mc::cat("iteration ", it))) return;
    c.check(int(B.iter) == it, "iteration-number", mc::cat(B.iter, " / ", it));
    c.check(sv::close(B.cost, cost, 1e-10, 1e-10), "cost-of-iterate-wrong", mc::cat("iteration ", it, ": ", B.cost, " should be ", cost));
    if (!c.check(err(B.kkt, q.K) <= 1e-10 * (1 + mag(q.K)), "matrix-wrong", mc::cat("iteration ", it, " off by ", err(B.kkt, q.K)))) return;
    if (!c.check(err(B.ref, q.r) <= 1e-10 * (1 + mag(q.r)), "right-hand-side-wrong", mc::cat("iteration ", it, " off by ", err(B.ref, q.r)))) return;
    const double tol = 1e-11 * cond * wsz;
    if (!c.check(err(B.pd, w) <= tol, "step-is-not-the-solution", mc::cat("iteration ", it, " off by ", err(B.pd, w)))) return;
    double e1 = 0;
    if (B.dx.size() != size_t(T) + 1 || B.lam.size() != size_t(T) + 1 || B.du.size() != size_t(T)) e1 = pb::INF;
    else for (int t = 0; t <= T; ++t) { e1 = std::max({e1, err(B.dx[size_t(t)], w.segment(t * n, n)), err(B.lam[size_t(t)], lam.segment(t * n, n))}); if (t < T) e1 = std::max(e1, err(B.du[size_t(t)], w.segment(q.iu[size_t(t)], p.run[size_t(t)].m))); }
    if (!c.check(e1 <= tol, "direction-wrong", mc::cat("iteration ", it, " off by ", e1))) return;
    c.check(close(B.KKT, kkt, 1e-8, tol * 10 * (1 + mag(q.K))), "KKT-wrong", mc::cat("iteration ", it, ": ", B.KKT, " should be ", kkt));
    const double d0 = -g.dot(prim), d1 = -prim.dot(q.K.topLeftCorner(N, N) * prim);
    const double dsz = 1 + std::fabs(d0) + std::fabs(d1) + mag(g) * wsz + mag(q.K) * wsz * wsz;
    c.check(std::fabs(B.d[0] - d0) <= 1e-10 * cond * dsz && std::fabs(B.d[1] - d1) <= 1e-10 * cond * dsz, "expected-improvement-wrong", mc::cat(B.d[0], " ", B.d[1], " should be ", d0, " ", d1));
    if (!more) {
      if (!c.check(ret == 1, "stops-early-without-success", mc::cat("iteration ", it))) return;
      c.check(kkt <= o.tol + tol * 10 * (1 + mag(q.K)), "true-without-small-residual", mc::cat(kkt));
      if (Extra::cost(env.at(xs.back())) == 0) {
        c.check(E.gapinf <= o.tol + 1e-12, "true-with-gaps", "");
        c.check(p.nus() == 0 || pb::stationarity(p, xs, us, 0) <= pb::kkt_gain(p, L) * (o.tol + 1e-9) * (T + 1), "true-at-a-non-stationary-point", mc::cat(pb::stationarity(p, xs, us, 0)));
      }
      done = true; break;
    }
    const Iter& I = log[li++];
    if (!c.check(!(kkt < o.tol * (1 - 1e-6) - tol * 10 * (1 + mag(q.K))), "convergence-missed", mc::cat("iteration ", it, " residual ", kkt))) return;
    if (!c.check(I.ended, "no-callback", "")) return;
    if (!c.check(!I.tr.empty(), "no-trial", "")) return;
    const End& e = I.e;
    bool accepted = false; double acost = 0; Traj ax, au; bool ftrial = feas;
    for (size_t j = 0; j < I.tr.size(); ++j) {
      const Trial& tr = I.tr[j]; const bool last = j + 1 == I.tr.size();
      const double al = 1.0 / double(1 << j);
      if (!c.check(j < 10 && tr.alpha == al, "step-lengths-out-of-order", mc::cat("trial ", j, " alpha ", tr.alpha))) return;
      Traj tx, tu; double e2 = 0;
      if (!c.check(tr.pts.size() == size_t(T) + 1, "trial-evaluates-other-nodes", mc::cat(tr.pts.size()))) return;
      for (int t = 0; t <= T; ++t) {
        const VectorXd a = pb::loc(p, xs[size_t(t)]) + al * prim.segment(t * n, n);
        const VectorXd& got = tr.pts[size_t(t)].second.first;
        if (tr.pts[size_t(t)].first != t) e2 = pb::INF; else e2 = std::max(e2, err(got, pb::Model::embed(a, p.circle)));
        tx.push_back(got);
        if (t < T) { VectorXd u = us[size_t(t)] + al * prim.segment(q.iu[size_t(t)], p.run[size_t(t)].m); e2 = std::max(e2, err(tr.pts[size_t(t)].second.second, u)); tu.push_back(tr.pts[size_t(t)].second.second); }
      }
      if (!c.check(e2 <= tol, "trial-wrong", mc::cat("iteration ", it, " alpha ", al, " off by ", e2))) return;
      const int ex = env.at(tx.back());
      const double tcost = pb::evaluate(p, tx, tu).cost + Extra::cost(ex);
      const bool fails = ex == 3 || ex == 2 || std::isnan(tcost);
      c.check(tr.threw == fails, "evaluation-failure-not-noticed", mc::cat("answer ", ex));
      if (fails) { c.stat("trial failed"); if (last) c.check(j == 9, "search-abandoned", ""); continue; }
      const double dV = cost - tcost, ve = al * d0 + 0.5 * al * al * d1, csz = 1 + std::fabs(cost) + std::fabs(tcost) + dsz;
      c.check(close(tr.dV, dV, 1e-9, 1e-10 * csz), "cost-improvement-wrong", mc::cat(tr.dV, " should be ", dV));
      bool acc = d0 < 1e-12 || !ftrial || dV > o.acc * ve;
      const double m = ftrial ? std::min(std::fabs(d0 - 1e-12) / dsz, std::fabs(dV - o.acc * ve) / csz) : 1;
      const bool moved = last && maxabs(e.xs, tx) == 0 && maxabs(e.us, tu) == 0;
      if (m < 1e-8) { c.stat("decision at rounding level"); acc = moved; }
      else { if (!c.check(acc == moved, acc ? "acceptable-step-rejected" : "unacceptable-step-accepted", mc::cat("iteration ", it, " alpha ", al, " cost ", cost, " -> ", tcost))) return; c.stat(acc ? "accepted" : "rejected"); if (!acc) c.nontrivial++; }
      if (last) c.check(close(e.dVexp, ve, 1e-8, 1e-9 * cond * dsz), "expected-improvement-wrong", mc::cat(e.dVexp, " should be ", ve));
      if (acc) { accepted = true; acost = tcost; ax = tx; au = tu; }
      else if (last) c.check(j == 9, "search-abandoned", mc::cat("after ", j + 1));
    }
    if (accepted) { was = feas; xs = ax; us = au; feas = true; }
    c.check(maxabs(e.xs, xs) == 0 && maxabs(e.us, us) == 0, "iterate-changed-without-acceptance", mc::cat("iteration ", it));
    const double want = accepted ? acost : cost;
    c.check(close(e.cost, want, 1e-10, 1e-10 * (1 + std::fabs(want))), "cost-is-not-the-cost-of-the-iterate", mc::cat("iteration ", it, ": ", e.cost, " should be ", want));
    c.check(e.step == I.tr.back().alpha, "step-length-wrong", "");
    c.check(e.feas == feas, "feasibility-flag-wrong", "");
    const double st = rl.squaredNorm() + q.r.tail(q.nx).squaredNorm();
    c.check(close(e.stop, st, 1e-7, tol * tol * 1e4 * (1 + mag(q.K)) + 1e-12 * wsz * wsz), "stop-wrong", mc::cat(e.stop, " should be ", st));
    uint64_t h = mc::mix(mc::hdbl(cost), uint64_t(it) * 2 + accepted); for (auto& v : us) for (int i = 0; i < v.size(); ++i) h = mc::mix(h, mc::hdbl(v[i])); c.state(h);
    if (was && e.stop < o.th_stop) { c.check(ret == 1 && li == log.size(), "goes-on-after-the-stopping-criterion", ""); c.stat("stops by th_stop"); done = true; }
    else if (li == log.size() && it + 1 == o.maxiter) c.check(ret == 0, "true-at-the-iteration-limit", "");
  }
  if (!lost) { c.check(li == log.size(), "goes-on-after-the-end", mc::cat(log.size())); c.check(maxabs(s.get_xs(), xs) == 0 && maxabs(s.get_us(), us) == 0, "final-iterate-wrong", ""); }
  c.stat(lost ? "lost" : ret ? "true" : "false");
  c.traces++; c.sample(c.cfg);
}
static int solve(Spy& s, std::vector<Iter>& log, const Traj& xs, const Traj& us, const Cfg& o) {
  log.clear(); s.fresh = true;
  s.set_termination_tolerance(o.tol); s.set_th_acceptstep(o.acc); s.set_th_stop(o.th_stop);
  try { return s.solve(xs, us, size_t(o.maxiter), o.feas); } catch (std::exception&) { return -1; }
}
static pb::Shape shape(mc::Ctx& c, int Tmax) {
  pb::Shape s; s.T = 1 + c.choose(Tmax); s.n = 1 + c.choose(2);
  const int mpat = c.choose(4);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : mpat == 1 ? 2 : mpat == 2 ? 2 - t % 2 : (t + 1) % 2);
  s.rows.assign(size_t(s.T) + 1, {});
  return s;
}
static void natural(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s = shape(c, th ? 5 : 4);
  s.variant = c.choose(th ? 6 : 3);
  const int nl = c.choose(4);
  s.nlf = nl == 0 ? 0 : nl == 1 ? 0.5 : 0.9; s.nlx = nl == 0 ? 0 : nl == 1 ? 0.6 : 2; s.nlu = nl == 0 ? 0 : 0.3; s.hs = nl == 3 ? -1 : nl == 2 ? 0.5 : 1;
  s.circle = c.flag();
  Cfg o; o.maxiter = th ? 10 : 6; const int opt = c.choose(3); if (opt == 1) { o.tol = 1e-3; } if (opt == 2) { o.acc = 0.7; o.th_stop = 1e-3; }
  c.shard();
  const pb::Prob p = pb::make(s);
  const int g = c.choose(4); const double sc = c.pick(std::vector<double>{0.7, 3});
  Traj xs, us; pb::guess(p, std::min(g, 2), 0, xs, us, sc); o.feas = g == 3;
  if (c.flag()) xs[0] = pb::Model::embed(pb::gvec(p.n(), 601, 1, 0.6), p.circle);   // a guess that does not start at x0
  c.cfg = mc::cat("natural ", s.str(), " opt", opt, " guess", g, "*", sc);
  Extra env; env.T = s.T; env.answer = [](int) { return 0; };
  std::vector<Iter> log; pb::Built b = pb::build(p, &env); Spy q(b.problem, &env, &log); q.setCallbacks({std::make_shared<Back>(&q)});
  const int r = solve(q, log, xs, us, o);
  replay(c, p, env, q, log, xs, us, o, r);
}
static void histories(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s; s.T = 1 + c.choose(2); s.n = 1 + c.choose(2); for (int t = 0; t < s.T; ++t) s.m.push_back(1); s.rows.assign(size_t(s.T) + 1, {});
  s.nlf = 0.9; s.nlx = 2; s.nlu = 0.3; s.circle = c.flag();
  Cfg o; o.maxiter = 3; const int g = c.choose(4); o.feas = g == 3;
  const int opt = c.choose(2); if (opt) o.acc = 0.6;
  c.shard();
  const pb::Prob p = pb::make(s);
  Traj xs, us; pb::guess(p, std::min(g, 2), 0, xs, us, 1.0);
  c.cfg = mc::cat("histories ", s.str(), " opt", opt, " guess", g);
  Extra env; env.T = s.T; const int depth = th ? 6 : 5; static const std::vector<int> f{0, 1, 2, 3, 4};
  env.answer = [&](int k) { return k < 1 || k > depth ? 0 : f[size_t(c.choose(5))]; };
  std::vector<Iter> log; pb::Built b = pb::build(p, &env); Spy q(b.problem, &env, &log); q.setCallbacks({std::make_shared<Back>(&q)});
  const int r = solve(q, log, xs, us, o);
  replay(c, p, env, q, log, xs, us, o, r);
}
// the same object on a problem that changes between the solves
static void updates(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s = shape(c, 3);
  s.nlf = 0.5; s.nlx = 0.6; s.nlu = 0.3; s.circle = c.flag();
  const int len = 1 + c.choose(th ? 3 : 2);
  std::vector<int> ops; for (int i = 0; i < len; ++i) ops.push_back(c.choose(6));
  c.shard();
  pb::Prob p = pb::make(s);
  Extra env; env.T = s.T; env.answer = [](int) { return 0; };
  std::vector<Iter> log; pb::Built b = pb::build(p, &env); Spy q(b.problem, &env, &log); q.setCallbacks({std::make_shared<Back>(&q)});
  Cfg o; o.maxiter = 1 + 2 * c.choose(2);
  const int g = c.choose(3); const bool gap = c.flag(), feas = c.flag();
  std::string h;
  for (int k = 0; k <= len; ++k) {
    Traj xs, us; pb::guess(p, k % 2 ? 2 : g, 0, xs, us, 1.0); o.feas = feas && k % 2; o.maxiter = k == len ? 5 : o.maxiter;
    if (gap || k == len) { c.cfg = mc::cat("updates ", s.str(), " first solves of ", o.maxiter, " guess", g, " between", gap, " feas", feas, ":", h); const int r = solve(q, log, xs, us, o); replay(c, p, env, q, log, xs, us, o, r); env.memo.clear(); }
    if (k == len) break;
    const int v = 20 + 3 * k; pb::Shape s2 = s; s2.variant = v;
    auto put = [&](int t, int m) { if (t < s.T) s2.m[size_t(t)] = m; pb::Prob p2 = pb::make(s2); auto md = std::make_shared<pb::Model>(b.state, p2.node(t), t, p.circle); md->hooks = &env; b.models[size_t(t)] = md; if (t < s.T) { p.run[size_t(t)] = p2.run[size_t(t)]; s.m[size_t(t)] = m; } else p.term = p2.term; b.problem->updateModel(size_t(t), md); };
    static const char* N[] = {" x0", " running", " running-nu", " all-nu", " terminal", " shift-nu"};
    h += N[ops[size_t(k)]];
    switch (ops[size_t(k)]) {
      case 0: p.x0 = pb::gvec(p.n(), 77, v, 0.8); b.problem->set_x0(pb::Model::embed(p.x0, p.circle)); break;
      case 1: put(s.T - 1, s.m.back()); break;
      case 2: put(0, (s.m[0] + 1) % 3); break;
      case 3: for (int t = 0; t < s.T; ++t) put(t, (s.m[size_t(t)] + 2) % 3); break;
      case 4: put(s.T, 0); break;
      default: {
        s2.m.back() = (s.m.back() + 1) % 3; pb::Prob p2 = pb::make(s2); auto md = std::make_shared<pb::Model>(b.state, p2.run.back(), s.T - 1, p.circle); md->hooks = &env;
        for (int t = 0; t + 1 < s.T; ++t) { b.models[size_t(t)] = b.models[size_t(t) + 1]; b.models[size_t(t)]->id = t; p.run[size_t(t)] = p.run[size_t(t) + 1]; s.m[size_t(t)] = s.m[size_t(t) + 1]; }
        p.run.back() = p2.run.back(); s.m.back() = s2.m.back(); b.models[size_t(s.T) - 1] = md; b.problem->circularAppend(std::static_pointer_cast<crocoddyl::ActionModelAbstract>(md));
      }
    }
  }
}
static void body(mc::Ctx& c) { const int k = c.choose(3); if (k == 0) natural(c); else if (k == 1) histories(c); else updates(c); }
int main(int a, char** v) {
  return mc::main_check(a, v, {"C23",
    "stateless exploration of SolverKKT against an environment that decides the outcome of trial points; matrix, right-hand side, step, residual, trial points, acceptance and verdict of every iteration compared with a dense formulation assembled from the problem",
    "all control patterns with T<=4, nx<=2 (nu 0, 1, 2, mixed), 3 data variants, manifold, 4 nonlinearities incl. an indefinite Hessian, 3 option sets, 16 starts; every history of 5 outcomes at the first 5 trial points; all sequences of up to 2 out of 6 problem updates between solves",
    "T<=5, 6 data variants, first 6 trial points, sequences of 3 updates",
    {"models are deterministic functions of their arguments", "subproblems with a (nearly) singular KKT matrix are left out", "comparisons decided within 1e-8 of a tie follow the solver"}}, body);
}
