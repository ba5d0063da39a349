// C22: SolverDDP and SolverFDDP.  Every trial of the real line search is recorded (through the virtual tryStep and
// the model evaluations) and replayed against an independent formulation of the algorithm: Riccati sweep, roll-out,
// expected improvement, acceptance rule, regularisation, multipliers and termination.
#include "mc.hpp"
#include "mon.hpp"
using namespace mon;
using pb::MatrixXd;

// Added to the cost of every new terminal point; decided by the explorer.
struct Extra : pb::Hooks {
  std::function<int(int)> answer;      // ordinal of the new terminal point -> 0 nothing, 1 more cost, 2 NaN cost, 3 throws, 4 less cost, 5 NaN state
  std::map<std::vector<long long>, int> memo; int seen = 0; bool on = true;
  std::vector<std::pair<int, std::pair<VectorXd, VectorXd>>>* rec = nullptr;
  int T = 0;
  static std::vector<long long> key(const VectorXd& x) { std::vector<long long> k; for (int i = 0; i < x.size(); ++i) k.push_back(std::isfinite(x[i]) ? std::llround(x[i] * 1e8) : 0x7fffffff); return k; }
  int at(const VectorXd& x) {
    auto k = key(x); auto f = memo.find(k); if (f != memo.end()) return f->second;
    // points that only differ by rounding are one point
    for (auto& m : memo) { bool same = true; for (size_t i = 0; i < k.size(); ++i) same = same && std::llabs(m.first[i] - k[i]) <= 2; if (same) { const int a = m.second; return memo[k] = a; } }
    return memo[k] = answer(seen++);
  }
  bool levels = false;  // the total cost is 1, 2, NaN, (exception) or 3 instead, so that exact ties occur
  double cost(int a) const { if (levels) return a == 2 ? pb::NANV : a == 1 ? 3 : a == 4 ? 1 : 2; return a == 1 ? 1000 : a == 2 ? pb::NANV : a == 4 ? -1000 : 0; }
  void on_calc(int node, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd& u) override {
    if (rec) rec->push_back({node, {x, u}});
    if (levels) d.cost = 0;
    if (node != T || !on) return;
    const int a = at(x);
    if (a == 3) throw std::runtime_error("model");
    d.cost += cost(a);
  }
};
struct Trial { double alpha, dV = 0; bool threw = false; std::vector<std::pair<int, std::pair<VectorXd, VectorXd>>> pts; };
struct Start {  // what the solver shows when the line search starts
  Traj xs, us, fs, k, Vx, lag; std::vector<MatrixXd> K, Vxx; double cost, kkt, preg; bool feas; size_t iter;
};
struct End { Traj xs, us, lag; double cost, step, preg, kkt, stop, dV, dVexp; bool feas; size_t iter; };
struct Iter { Start s; std::vector<Trial> tr; End e; bool ended = false; };

template <class S> struct Spy : S {
  Extra* env; std::vector<Iter>* log; bool fresh = true;
  Spy(std::shared_ptr<crocoddyl::ShootingProblem> p, Extra* e, std::vector<Iter>* l) : S(p), env(e), log(l) {}
  void start(Start& s) {
    s.xs = this->get_xs(); s.us = this->get_us(); s.fs = this->get_fs(); s.k = this->get_k(); s.Vx = this->get_Vx(); s.lag = this->S::lag_mul_;
    for (auto& m : this->get_K()) s.K.push_back(m);
    s.Vxx = this->get_Vxx(); s.cost = this->get_cost(); s.kkt = this->get_KKT(); s.preg = this->get_preg(); s.feas = this->get_is_feasible(); s.iter = this->get_iter();
  }
  double tryStep(const double a) override {
    if (fresh) { fresh = false; log->push_back(Iter()); start(log->back().s); }
    auto& l = log->back().tr;
    l.push_back(Trial()); l.back().alpha = a; env->rec = &l.back().pts;
    try { const double r = S::tryStep(a); env->rec = nullptr; l.back().dV = r; return r; } catch (...) { env->rec = nullptr; l.back().threw = true; throw; }
  }
};

struct Cfg { int maxiter = 4; bool feas = false; double reg = pb::NANV, tol = 1e-9, rmin = 1e-9, rmax = 1e9, inc = 10, dec = 10, dect = 0.5, inct = 0.125, acc = 0.1, neg = 2, grad = 1e-12; bool filter = true; size_t fsize = 1; std::vector<double> alphas{1, 0.5, 0.25, 0.125}; };

static double err(const MatrixXd& a, const MatrixXd& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return pb::INF; double m = 0; for (Eigen::Index i = 0; i < a.size(); ++i) { double d = std::fabs(a.data()[i] - b.data()[i]); if (std::isnan(d)) return pb::INF; m = std::max(m, d); } return m; }
static double mag(const MatrixXd& a) { return a.size() ? a.lpNorm<Eigen::Infinity>() : 0; }

// the algorithm, from the problem alone
struct Sweep { Traj Vx, k, Qu; std::vector<MatrixXd> Vxx, K, Quu; bool ok = true, unsure = false; double size = 1; };
static Sweep riccati(const pb::Prob& p, const Lin& L, const Traj& fs, bool feas, double reg) {
  const int T = p.T(), n = p.n();
  Sweep w; w.Vx.resize(size_t(T) + 1); w.Vxx.resize(size_t(T) + 1); w.k.resize(size_t(T)); w.K.resize(size_t(T)); w.Qu.resize(size_t(T)); w.Quu.resize(size_t(T));
  const MatrixXd I = MatrixXd::Identity(n, n);
  w.Vxx[size_t(T)] = L.Lxx[size_t(T)] + reg * I; w.Vx[size_t(T)] = L.Lx[size_t(T)];
  if (!feas) w.Vx[size_t(T)] += w.Vxx[size_t(T)] * fs[size_t(T)];
  for (int t = T - 1; t >= 0; --t) {
    const size_t i = size_t(t); const int m = p.run[i].m;
    const MatrixXd& V = w.Vxx[i + 1];
    VectorXd Qx = L.Lx[i] + L.Fx[i].transpose() * w.Vx[i + 1];
    MatrixXd Qxx = L.Lxx[i] + L.Fx[i].transpose() * V * L.Fx[i];
    w.k[i].resize(m); w.K[i].resize(m, n); w.Qu[i].resize(m); w.Quu[i].resize(m, m);
    if (m) {
      w.Qu[i] = L.Lu[i] + L.Fu[i].transpose() * w.Vx[i + 1];
      w.Quu[i] = L.Luu[i] + L.Fu[i].transpose() * V * L.Fu[i] + reg * MatrixXd::Identity(m, m);
      const MatrixXd Qxu = L.Lxu[i] + L.Fx[i].transpose() * V * L.Fu[i];
      const double ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(w.Quu[i]).eigenvalues()[0], sz = std::max(1.0, mag(w.Quu[i]));
      if (std::fabs(ev) < 1e-7 * sz) { w.unsure = true; return w; }
      if (ev < 0) { w.ok = false; return w; }
      w.size = std::max({w.size, sz / ev});
      w.k[i] = w.Quu[i].llt().solve(w.Qu[i]); w.K[i] = w.Quu[i].llt().solve(Qxu.transpose());
      Qx -= w.K[i].transpose() * w.Qu[i];
      Qxx -= Qxu * w.K[i];
    }
    w.Vxx[i] = 0.5 * (Qxx + Qxx.transpose()) + reg * I; w.Vx[i] = Qx;
    if (!feas) w.Vx[i] += w.Vxx[i] * fs[i];
    w.size = std::max({w.size, mag(w.Vxx[i]), mag(w.Vx[i]), mag(w.k[i])});
  }
  return w;
}
// state integration in the manifold, in the embedding the solver uses
static VectorXd integrate(const pb::Prob& p, const VectorXd& x, const VectorXd& d) { return p.circle ? pb::Model::embed(pb::loc(p, x) + d, true) : VectorXd(x + d); }
static VectorXd dif(const pb::Prob& p, const VectorXd& a, const VectorXd& b) { return pb::wrap(p, pb::loc(p, b) - pb::loc(p, a)); }
static VectorXd fstep(const pb::Prob& p, size_t t, const VectorXd& x, const VectorXd& u) { return pb::Model::embed(p.run[t].f(pb::loc(p, x), u), p.circle); }

template <class S> static void run(mc::Ctx& c, const pb::Prob& p, const Traj& xs0, const Traj& us0, const Cfg& o, int depth, const std::vector<int>& faults, bool levels = false) {
  constexpr bool fddp = std::is_same<S, SolverFDDP>::value;
  const int T = p.T();
  Extra env; env.T = T; env.levels = levels;
  env.answer = [&](int n) { return n < 1 || n > depth ? 0 : faults[size_t(c.choose(int(faults.size())))]; };
  std::vector<Iter> log;
  pb::Built b = pb::build(p, &env);
  std::streambuf* er = std::cerr.rdbuf(nullptr);
  Spy<S> s(b.problem, &env, &log);
  s.set_alphas(o.alphas); std::cerr.rdbuf(er);
  s.set_th_stepdec(o.dect); s.set_th_stepinc(o.inct); s.set_th_acceptstep(o.acc); s.set_th_grad(o.grad);
  s.set_reg_min(o.rmin); s.set_reg_max(o.rmax); s.set_reg_incfactor(o.inc); s.set_reg_decfactor(o.dec); s.set_termination_tolerance(o.tol);
  if constexpr (fddp) { s.set_use_filter_line_search(o.filter); s.set_filter_size(o.fsize); s.set_th_acceptnegstep(o.neg); }
  s.setCallbacks({callback([&](crocoddyl::SolverAbstract& a, const std::string&) {
    s.fresh = true;
    if (log.empty() || log.back().ended) { log.push_back(Iter()); s.start(log.back().s); }
    End& e = log.back().e; log.back().ended = true;
    e = End{a.get_xs(), a.get_us(), s.S::lag_mul_, a.get_cost(), a.get_steplength(), a.get_preg(), s.get_KKT(), a.get_stop(), a.get_dV(), a.get_dVexp(), a.get_is_feasible(), a.get_iter()};
  })});
  bool ret;
  try { ret = s.solve(xs0, us0, size_t(o.maxiter), o.feas, o.reg); } catch (std::exception& e) { c.fail("throws", e.what()); return; }

  // ---- replay --------------------------------------------------------------------------------------------------
  Traj xs = xs0, us = us0; xs[0] = xs0[0];
  bool feas = o.feas; double reg = std::isnan(o.reg) ? o.rmin : o.reg;
  Traj lag(size_t(T) + 1, VectorXd::Zero(p.n()));
  std::vector<double> fc, fg;   // filter
  size_t li = 0; bool done = false, expect = false, lost = false;
  auto extra = [&](const VectorXd& x) { return env.cost(env.at(x)); };
  env.answer = [](int) { return 0; };
  for (int it = 0; it < o.maxiter && !done; ++it) {
    const pb::Eval E = pb::evaluate(p, xs, us); const Lin L = pb::linearise(p, xs, us);
    const double cost = (levels ? 0 : E.cost) + extra(xs.back());
    Traj fs = E.gap; if (feas) for (auto& f : fs) f.setZero();
    double gap1 = l1(fs);
    // backward pass, with more regularisation as long as a factorisation fails
    Sweep w;
    for (;;) {
      w = riccati(p, L, fs, feas, reg);
      if (w.unsure || w.ok) break;
      c.stat("factorisation failed");
      reg = std::min(reg * o.inc, o.rmax);
      if (reg == o.rmax) break;
    }
    if (w.unsure) { c.stat("factorisation on the edge"); lost = true; break; }
    if (!w.ok) {
      c.check(!ret && li == log.size(), "goes-on-after-reg-max", ""); c.stat("stops at reg_max without a direction"); done = true; expect = true; break;
    }
    const double sz = 1 + w.size * w.size;
    // first-order residual with the multipliers
    double kkt = 0, ksz = 1;
    for (int t = 0; t <= T; ++t) {
      const size_t i = size_t(t);
      VectorXd rx = L.Lx[i] - lag[i]; ksz = std::max(ksz, mag(lag[i]));
      if (t < T) rx += L.Fx[i].transpose() * lag[i + 1];
      kkt = std::max(kkt, inf_norm(rx)); kkt = std::max(kkt, inf_norm(fs[i]));
      if (t < T && p.run[i].m) kkt = std::max(kkt, inf_norm(L.Lu[i] + L.Fu[i].transpose() * lag[i + 1]));
    }
    const bool more = li < log.size();
    if (!more) {
      // nothing more happened: the iterate has to satisfy the conditions
      c.check(ret, "stops-early-without-success", mc::cat("iteration ", it, " of ", o.maxiter, " reg ", reg));
      if (ret) {
        c.check(kkt <= o.tol + 1e-11 * ksz * sz, "true-without-small-residual", mc::cat("residual ", kkt, " tolerance ", o.tol));
        c.check(close(s.get_KKT(), kkt, 1e-8, 1e-11 * ksz * sz), "KKT-wrong", mc::cat(s.get_KKT(), " should be ", kkt));
        c.check(sv::close(s.get_cost(), cost, 1e-10, 1e-10 * (1 + std::fabs(cost))), "final-cost-wrong", mc::cat(s.get_cost(), " is not ", cost));
        c.check(int(s.get_iter()) == it, "iteration-number", "");
        if (!levels && (!env.memo.size() || extra(xs.back()) == 0)) {
          const double st = pb::stationarity(p, xs, us, 0), g = pb::kkt_gain(p, L);
          c.check(st <= g * (o.tol + 1e-10) * double(T + 1) || p.nus() == 0, "true-at-a-non-stationary-point", mc::cat("reduced gradient ", st));
          Traj x1 = xs; c.check(feas || E.gapinf <= o.tol + 1e-12, "true-with-gaps", mc::cat(E.gapinf));
        }
      }
      done = true; expect = true; break;
    }
    const Iter& I = log[li++];
    c.transition();
    const Start& B = I.s;
    if (!c.check(!(kkt <= o.tol * (1 - 1e-6) - 1e-11 * ksz * sz), "convergence-missed", mc::cat("iteration ", it, " residual ", kkt))) return;
    if (!c.check(I.tr.size() > 0, "no-trial", "")) return;
    if (!c.check(maxabs(B.xs, xs) <= 1e-9 * sz && maxabs(B.us, us) <= 1e-9 * sz, "iterate-changed-between-iterations", mc::cat("iteration ", it))) return;
    c.check(int(B.iter) == it, "iteration-number", mc::cat(B.iter, " / ", it));
    c.check(sv::close(B.cost, cost, 1e-10, 1e-10), "cost-of-iterate-wrong", mc::cat("iteration ", it, ": ", B.cost, " should be ", cost));
    c.check(B.feas == feas, "feasibility-flag-wrong", mc::cat("iteration ", it, ": ", B.feas));
    c.check(close(B.preg, reg, 1e-12, 0), "regularisation-wrong", mc::cat("iteration ", it, ": ", B.preg, " should be ", reg));
    if (!c.check(maxabs(B.fs, fs) <= 1e-9, "gaps-wrong", mc::cat("iteration ", it, ": ", pb::show(B.fs), " should be ", pb::show(fs)))) return;
    c.check(close(B.kkt, kkt, 1e-8, 1e-10 * ksz * sz), "KKT-wrong", mc::cat("iteration ", it, ": ", B.kkt, " should be ", kkt));
    fs = B.fs; gap1 = l1(fs);  // equal up to rounding
    double e1 = 0; for (size_t t = 0; t < size_t(T); ++t) e1 = std::max({e1, err(B.k[t], w.k[t]), err(B.K[t], w.K[t])});
    for (size_t t = 0; t <= size_t(T); ++t) e1 = std::max({e1, err(B.Vx[t], w.Vx[t]), err(B.Vxx[t], w.Vxx[t])});
    if (!c.check(e1 <= 1e-9 * sz, "riccati-wrong", mc::cat("iteration ", it, " off by ", e1))) return;
    fc.push_back(cost); fg.push_back(gap1);
    // ---- trials
    bool accepted = false; Traj ax, au; double acost = 0; bool afeas = false, a_last = false;
    for (size_t j = 0; j < I.tr.size(); ++j) {
      const Trial& tr = I.tr[j];
      if (!c.check(!accepted, "trial-after-acceptance", "")) return;
      if (!c.check(j < o.alphas.size() && tr.alpha == o.alphas[j], "step-lengths-out-of-order", mc::cat("trial ", j, " alpha ", tr.alpha))) return;
      const double al = tr.alpha;
      // own forward pass
      const bool rollout = !fddp || feas || al == 1;
      Traj tx, tu; VectorXd xn = pb::Model::embed(p.x0, p.circle); double tcost = 0; double tgap = 0; bool threw = false;
      for (size_t t = 0; t < size_t(T); ++t) {
        VectorXd x = xn;
        if (!rollout) { x = integrate(p, xn, fs[t] * (al - 1)); tgap += dif(p, x, xn).lpNorm<1>(); }
        const VectorXd dx = dif(p, xs[t], x);
        VectorXd u = us[t]; if (p.run[t].m) u -= al * w.k[t] + w.K[t] * dx;
        lag[t] = w.Vxx[t] * (rollout ? dx : VectorXd(dx - fs[t])) + w.Vx[t];
        tx.push_back(x); tu.push_back(u); if (!levels) tcost += p.run[t].l(pb::loc(p, x), u);
        xn = fstep(p, t, x, u);
        if (!std::isfinite(tcost) || !xn.allFinite() || std::fabs(tcost) > 1e29) { c.stat("blow-up"); lost = true; break; }
      }
      if (lost) break;
      VectorXd x = xn; if (!rollout) { x = integrate(p, xn, fs.back() * (al - 1)); tgap += dif(p, x, xn).lpNorm<1>(); }
      const VectorXd dx = dif(p, xs.back(), x);
      lag.back() = w.Vxx.back() * (rollout ? dx : VectorXd(dx - fs.back())) + w.Vx.back();
      tx.push_back(x);
      const int ex = env.at(x);
      tcost += (levels ? 0 : p.term.lT(pb::loc(p, x))) + env.cost(ex); threw = ex == 2 || ex == 3;
      // what the solver evaluated
      if (!c.check(tr.pts.size() == size_t(T) + 1, "trial-evaluates-other-nodes", mc::cat(tr.pts.size()))) return;
      double e2 = 0; for (size_t t = 0; t < tr.pts.size(); ++t) { if (tr.pts[t].first != int(t)) { e2 = pb::INF; break; } e2 = std::max(e2, err(tr.pts[t].second.first, tx[t])); if (t < size_t(T)) e2 = std::max(e2, err(tr.pts[t].second.second, tu[t])); }
      double tsz = sz; for (auto& v : tx) tsz = std::max(tsz, sz * mag(v)); for (auto& v : tu) tsz = std::max(tsz, sz * mag(v));
      if (!c.check(e2 <= 1e-9 * tsz, "trial-trajectory-wrong", mc::cat("iteration ", it, " alpha ", al, " off by ", e2, " scale ", tsz))) return;
      // follow the solver to the last bit
      for (size_t t = 0; t <= size_t(T); ++t) { tx[t] = tr.pts[t].second.first; if (t < size_t(T)) tu[t] = tr.pts[t].second.second; }
      c.check(tr.threw == threw, "evaluation-failure-not-noticed", mc::cat("answer ", ex));
      const double csz = 1 + std::fabs(cost) + std::fabs(tcost) + tsz;
      if (threw) { c.stat("trial failed"); continue; }
      c.check(sv::close(tr.dV, cost - tcost, 1e-9, 1e-10 * csz), "cost-improvement-wrong", mc::cat(tr.dV, " should be ", cost - tcost));
      const double dV = cost - tcost;
      // acceptance
      bool acc = false; double margin = pb::INF;
      auto edge = [&](double a, double bb, double scale) { margin = std::min(margin, std::fabs(a - bb) / scale); };
      if (fddp && o.filter) {
        bool worse = false;
        const size_t n = std::min(fc.size(), o.fsize);
        for (size_t q = 0; q < n; ++q) {
          const double C = fc[fc.size() - 1 - q], G = fg[fg.size() - 1 - q];
          if (C <= tcost && G <= tgap) worse = true;
          if ((std::fabs(C - tcost) / csz < 1e-9 && !levels) || (std::fabs(G - tgap) < 1e-9 && !(G == 0 && tgap == 0))) margin = 0;
        }
        acc = !worse; afeas = false;
      } else {
        double d0 = 0, d1 = 0, dvv = 0;
        for (size_t t = 0; t < size_t(T); ++t) if (p.run[t].m) { d0 += w.Qu[t].dot(w.k[t]); d1 -= w.k[t].dot(w.Quu[t] * w.k[t]); }
        if (fddp && !feas) {
          for (size_t t = 0; t <= size_t(T); ++t) { d0 -= w.Vx[t].dot(fs[t]); d1 += fs[t].dot(w.Vxx[t] * fs[t]); dvv -= fs[t].dot(w.Vxx[t] * dif(p, tx[t], xs[t])); }
          d0 += dvv; d1 -= 2 * dvv;
        }
        const double ve = al * (d0 + 0.5 * al * d1), dsz = csz + std::fabs(d0) + std::fabs(d1) + std::fabs(dvv);
        if (j + 1 == I.tr.size()) { c.check(close(s.get_dVexp(), ve, 1e-8, 1e-8 * dsz) || li < log.size(), "expected-improvement-wrong", ""); if (I.ended) c.check(close(I.e.dVexp, ve, 1e-8, 1e-8 * dsz), "expected-improvement-wrong", mc::cat(I.e.dVexp, " should be ", ve)); }
        edge(ve, 0, dsz);
        if (ve >= 0) {
          if (!fddp && !feas) acc = true;
          else { if (d0 < o.grad) acc = true; else acc = dV > o.acc * ve; edge(d0, o.grad, dsz); edge(dV, o.acc * ve, dsz); }
        } else if (fddp) { acc = dV > o.neg * ve; edge(dV, o.neg * ve, dsz); }
        afeas = fddp ? feas || al == 1 : true;
      }
      // the solver accepted this trial iff it is the last one and the iterate moved there
      const bool last = j + 1 == I.tr.size();
      const bool moved = last && (I.ended ? maxabs(I.e.xs, tx) == 0 && maxabs(I.e.us, tu) == 0 : maxabs(s.get_xs(), tx) == 0 && maxabs(s.get_us(), tu) == 0);
      const bool stayed = maxabs(tx, xs) <= 1e-12 && maxabs(tu, us) <= 1e-12;
      if (margin < 1e-8 || stayed) { c.stat("decision at rounding level"); acc = moved && !(stayed && j + 1 < o.alphas.size() && !last); if (last && stayed) { lost = true; break; } }
      else {
        if (!c.check(acc == moved, acc ? "acceptable-step-rejected" : "unacceptable-step-accepted", mc::cat("iteration ", it, " alpha ", al, " cost ", cost, " -> ", tcost, " gap ", gap1, " (", l1(B.fs), ") -> ", tgap))) return;
        c.stat(acc ? "accepted" : "rejected"); if (!acc) c.nontrivial++;
      }
      if (acc) { accepted = true; ax = tx; au = tu; acost = tcost; a_last = last; }
      else c.check(!(last && j + 1 < o.alphas.size()), "search-abandoned", "");
    }
    if (lost) break;
    (void)a_last;
    const double step = I.tr.back().alpha;
    if (!accepted) c.check(I.tr.size() == o.alphas.size(), "search-abandoned", "");
    if (accepted) {
      if (!fddp) {  // a roll-out from the initial state
        VectorXd x = pb::Model::embed(p.x0, p.circle); double e3 = err(ax[0], x);
        for (size_t t = 0; t < size_t(T); ++t) e3 = std::max(e3, err(fstep(p, t, ax[t], au[t]), ax[t + 1]) / (1 + mag(ax[t + 1])));
        c.check(e3 <= 1e-10, "accepted-trajectory-is-not-a-rollout", mc::cat(e3));
      }
      xs = ax; us = au; feas = fddp ? (o.filter ? false : (feas || step == 1)) : true;
    }
    // regularisation
    if (step > o.dect) { reg /= o.dec; if (reg < o.rmin) reg = o.rmin; }
    bool stop = false;
    if (step <= o.inct) { reg = std::min(reg * o.inc, o.rmax); stop = reg == o.rmax; }
    if (stop) { c.check(!ret && !I.ended && li == log.size(), "goes-on-after-reg-max", ""); c.check(close(s.get_preg(), o.rmax, 1e-12, 0), "regularisation-wrong", ""); c.stat("stops at reg_max"); done = true; expect = true; }
    else {
      if (!c.check(I.ended, "no-callback", mc::cat("iteration ", it))) return;
      const End& e = I.e;
      c.check(maxabs(e.xs, xs) == 0 && maxabs(e.us, us) == 0, "iterate-changed-without-acceptance", mc::cat("iteration ", it, accepted));
      const double want = accepted ? acost : cost;
      c.check(sv::close(e.cost, want, 1e-10, 1e-10 * (1 + std::fabs(want))), "cost-is-not-the-cost-of-the-iterate", mc::cat("iteration ", it, ": ", e.cost, " should be ", want, " accepted ", accepted));
      c.check(e.step == step, "step-length-wrong", mc::cat(e.step, " / ", step));
      c.check(close(e.preg, reg, 1e-12, 0), "regularisation-wrong", mc::cat("end of iteration ", it, ": ", e.preg, " should be ", reg));
      c.check(close(e.kkt, kkt, 1e-8, 1e-10 * ksz * sz), "KKT-wrong", "");
      c.check(e.feas == feas, "feasibility-flag-wrong", mc::cat("end of iteration ", it));
      double st = 0; for (auto& q : w.Qu) st += q.squaredNorm();
      c.check(close(e.stop, st, 1e-8, 1e-9 * sz * sz), "stop-wrong", mc::cat(e.stop, " should be ", st));
      c.check(maxabs(e.lag, lag) <= 1e-8 * sz * ksz * (1 + std::fabs(cost)), "multipliers-wrong", mc::cat("iteration ", it, " off by ", maxabs(e.lag, lag)));
      lag = e.lag;
    }
    // the reference follows the solver's own numbers from here on
    uint64_t h = uint64_t(it) * 2 + accepted; h = mc::mix(h, mc::hdbl(cost)); h = mc::mix(h, mc::hdbl(reg)); for (auto& v : us) for (int i = 0; i < v.size(); ++i) h = mc::mix(h, mc::hdbl(v[i])); c.state(h);
  }
  if (!lost) {
    if (!done) { c.check(!ret, "true-at-the-iteration-limit", ""); expect = true; }
    c.check(li == log.size(), "goes-on-after-the-end", mc::cat(log.size(), " iterations"));
    // the final iterate
    if (expect && !ret) {
      const double fcst = (levels ? 0 : pb::evaluate(p, s.get_xs(), s.get_us()).cost) + extra(s.get_xs().back());
      if (o.maxiter > 0) c.check(sv::close(s.get_cost(), fcst, 1e-9, 1e-9 * (1 + std::fabs(fcst))), "final-cost-wrong", mc::cat(s.get_cost(), " is not ", fcst));
      c.check(maxabs(s.get_xs(), xs) == 0 && maxabs(s.get_us(), us) == 0, "final-iterate-wrong", "");
    }
  }
  c.stat(ret ? "true" : "false"); if (lost) c.stat("lost");
  c.traces++;
  c.sample(c.cfg);
}

static pb::Shape shape(mc::Ctx& c, int Tmax) {
  pb::Shape s; s.T = 1 + c.choose(Tmax); s.n = 1 + c.choose(2);
  const int mpat = c.choose(4);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : mpat == 1 ? 2 : mpat == 2 ? 2 - t % 2 : (t + 1) % 2);
  s.rows.assign(size_t(s.T) + 1, {});
  return s;
}
static void go(mc::Ctx& c, int which, const pb::Prob& p, const Traj& xs, const Traj& us, const Cfg& o, int depth, const std::vector<int>& f, bool levels = false) {
  if (which == 0) run<SolverDDP>(c, p, xs, us, o, depth, f, levels); else run<SolverFDDP>(c, p, xs, us, o, depth, f, levels);
}
static void small(pb::Node& k) {
  const double f = 0.01;
  k.Q *= f; k.S *= f; k.R *= f; k.q *= f; k.r *= f; k.c0 *= f; k.nlx *= f; k.nlu *= f;
}
// 0 DDP, 1 FDDP with the filter, 2 FDDP with the expected improvement
static int solver(mc::Ctx& c, Cfg& o) { const int w = c.choose(3); o.filter = w != 2; return w == 0 ? 0 : 1; }
static bool start(mc::Ctx& c, pb::Prob& p, Traj& xs, Traj& us, Cfg& o, double scale, std::string& nm) {
  const int g = c.choose(6);  // zeros, open gaps, roll-out, roll-out declared feasible, open gaps also at the initial state, a gap at the initial state only (with small costs)
  pb::guess(p, g == 4 ? 1 : std::min(g, 2), 0, xs, us, scale); o.feas = g == 3;
  if (g >= 4) xs[0] = pb::Model::embed(pb::gvec(p.n(), 555, 1, scale), p.circle);
  if (g == 5) {
    for (auto& k : p.run) small(k);
    small(p.term);
    pb::Prob q = p; q.x0 = pb::gvec(p.n(), 555, 1, scale);
    pb::guess(q, 2, 0, xs, us, scale);
  }
  nm = mc::cat(" guess", g, "*", scale);
  return true;
}
// structure: all shapes, natural course of the solve
static void natural(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s = shape(c, th ? 4 : 3);
  s.variant = c.choose(th ? 4 : 2);
  const int nl = c.choose(4);
  s.nlf = nl == 0 ? 0 : nl == 1 ? 0.5 : 0.9; s.nlx = nl == 0 ? 0 : nl == 1 ? 0.6 : 2; s.nlu = nl == 0 ? 0 : 0.3; s.hs = nl == 3 ? -1 : nl == 2 ? 0.5 : 1;
  s.circle = c.flag();
  Cfg o; const int w = solver(c, o);
  const double sc = c.pick(std::vector<double>{0.7, 3});
  const int opt = c.choose(th ? 6 : 4);
  o.maxiter = th ? 9 : 6; o.fsize = opt == 1 ? 3 : 1; o.tol = opt == 2 ? 1e-3 : 1e-9;
  if (opt == 3) { o.reg = 0.5; o.inc = 3; o.dec = 7; o.rmin = 1e-5; o.rmax = 40; o.dect = 0.2; o.inct = 0.6; }
  if (opt == 4) { o.acc = 0.6; o.neg = 0.5; }
  if (opt == 5) { o.grad = 1; o.fsize = 4; }
  c.shard();
  pb::Prob p = pb::make(s);
  Traj xs, us; std::string nm; start(c, p, xs, us, o, sc, nm);
  c.cfg = mc::cat("natural ", w ? o.filter ? "FDDP-filter " : "FDDP " : "DDP ", s.str(), " opt", opt, nm);
  go(c, w, p, xs, us, o, 0, {0});
}
// histories of failing and unexpectedly good or bad trials
static void histories(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s; s.T = 1 + c.choose(2); s.n = 1 + c.choose(2); for (int t = 0; t < s.T; ++t) s.m.push_back(1); s.rows.assign(size_t(s.T) + 1, {});
  s.nlf = 0.9; s.nlx = 2; s.nlu = 0.3; s.circle = c.flag();
  Cfg o; const int w = solver(c, o);
  const int opt = c.choose(th ? 5 : 4);
  const bool levels = c.flag();
  o.maxiter = 4;
  o.alphas = {1, 0.5, 0.25};
  o.inct = 0.25; o.dect = 0.5;
  if (opt == 1) o.fsize = 2;
  if (opt == 2) { o.fsize = 3; o.reg = 10; o.rmax = 1000; o.inc = 10; o.dect = 0.25; }
  if (opt == 3) { o.acc = 0.5; o.neg = 0.1; o.alphas = {1, 0.5}; o.inct = 0.5; o.reg = 1; o.rmax = 99; }
  if (opt == 4) { o.alphas = {0.5, 0.125}; o.inct = 0.3; }
  const std::vector<int> f{0, 1, 2, 3, 4};
  c.shard();
  pb::Prob p = pb::make(s);
  Traj xs, us; std::string nm; start(c, p, xs, us, o, 1.0, nm);
  c.cfg = mc::cat("histories ", w ? o.filter ? "FDDP-filter " : "FDDP " : "DDP ", s.str(), " opt", opt, nm, levels ? " levels" : "");
  go(c, w, p, xs, us, o, th ? 6 : 4, f, levels);
}
static void body(mc::Ctx& c) { if (c.choose(2) == 0) natural(c); else histories(c); }
int main(int a, char** v) {
  return mc::main_check(a, v, {"C22",
    "stateless exploration of SolverDDP and SolverFDDP against an environment that decides the outcome of trial points; every iteration is compared with an independent formulation of the algorithm (gaps, Riccati sweep, trial trajectories, expected improvement, acceptance rule, regularisation, multipliers, verdict)",
    "all control patterns with T<=3, nx<=2 (nu 0, 1, 2, mixed), manifold, 4 nonlinearities incl. an indefinite Hessian, 4 option sets, 6 starts (also with a gap at the initial state, alone and with others), 2 scales; every history of 5 outcomes at the first 4 terminal points for 3 solver set-ups and 4 option sets, with natural costs and with three-level costs that produce exact ties",
    "T<=4, 4 data variants, 6 option sets; first 6 terminal points",
    {"models are deterministic functions of their arguments", "comparisons decided within 1e-8 of a tie follow the solver"}}, body);
}
